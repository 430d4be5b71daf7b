package ora

import (
	"archive/zip"
	"bytes"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"regexp"
	"strings"
	"testing"

	"limageverif/gen"
	"limageverif/vt"
	"pgregory.net/rapid"
	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/ora"
)

// notNumbers are not integers.
var notNumbers = []string{"", "x", "-", "+", "1.5", "1e2", "0x10", "1 ", " 1", "1px", "1,0", "--1", "1_0", "NaN", "١", "9223372036854775808", "99999999999999999999999", "-9223372036854775809", "10%"}

// notFractions are not decimal numbers.
var notFractions = []string{"", "x", "-", ".", "1,0", "50%", "0.5.5", "--1", "NaN", "nan", "1.0 ", " 1", "0.5f", "1e", "true", "½", "0.5;"}

// broken are not part of any well-formed document, wherever they are between tags.
var broken = []string{"<", "</x>", "&", "&unknown;", "<1/>", "<x y></x>", "<x y=1/>", "<x y=\"1/>", "\x01", "\xff", "\xc3", "<!-- -- -->", "]]>", "&#0;", "&#x110000;", "<x></y>", "</>", "< x/>"}

// rawEntry is an entry of which the archive says other things than it holds.
type rawEntry struct {
	name   string
	crc    uint32
	method uint16
	size   uint64
}

// archiveRaw makes an archive in which one entry is not what it is said to be.
func archiveRaw(t *rapid.T, fs []file, bad rawEntry) []byte {
	var buf bytes.Buffer

	zw := zip.NewWriter(&buf)

	for _, f := range fs {
		h := &zip.FileHeader{Name: f.name, Method: zip.Store, CRC32: crc32.ChecksumIEEE(f.data), UncompressedSize64: uint64(len(f.data)), CompressedSize64: uint64(len(f.data))}

		if f.name == bad.name {
			h.CRC32 ^= bad.crc
			h.Method = bad.method
			h.UncompressedSize64 += bad.size
		}

		w, err := zw.CreateRaw(h)
		if err == nil {
			_, err = w.Write(f.data)
		}

		if err != nil {
			t.Fatalf("VERIF-HARNESS: %v", err)
		}
	}

	if err := zw.Close(); err != nil {
		t.Fatalf("VERIF-HARNESS: %v", err)
	}

	return buf.Bytes()
}

// TestC34_Invalid: an archive that is wrong in one place is not decoded.
func TestC34_Invalid(t *testing.T) {
	vt.Check(t, 5000, 150000, func(t *rapid.T, c *vt.Case) {
		f := small(t)
		fs := f.files(t)

		set := func(name string, b []byte) {
			for i := range fs {
				if fs[i].name == name {
					fs[i].data = b
				}
			}
		}

		var layers, all []*node

		var find func([]*node)

		find = func(ns []*node) {
			for _, n := range ns {
				// Of those without attributes it cannot be told which is which.
				if n.xml != "" {
					all = append(all, n)
				}

				if n.stack {
					find(n.kids)
				} else {
					layers = append(layers, n)
				}
			}
		}

		find(f.kids)

		var (
			what   string
			config bool  // seen in the configuration, too
			want   error // or nil for any
			raw    *rawEntry
			x      = f.stackXML
		)

		tag := func(n *node) string {
			if n.stack {
				return "<stack" + n.xml
			}

			return "<layer" + n.xml
		}

		number := func(n *node, name string, values []string) {
			v := rapid.SampledFrom(values).Draw(t, "value")
			what = fmt.Sprintf("%s=%q", name, v)
			was := n.xml
			now := regexp.MustCompile(`(^|\s)`+name+` ?= ?("[^"]*"|'[^']*')`).ReplaceAllString(was, " ")

			if rapid.Bool().Draw(t, "first attribute") {
				now = " " + name + `="` + v + `"` + now
			} else {
				now += " " + name + `="` + v + `"`
			}

			x = strings.Replace(x, tag(n), strings.TrimSuffix(tag(n), was)+now, 1)
		}

		kind := rapid.SampledFrom([]string{"size", "position", "opacity", "markup", "markup in a tag", "unclosed", "no stack", "source", "source bits", "source cut", "checksum", "method", "missing source", "mimetype", "size of entry"}).Draw(t, "kind")

		switch kind {
		case "size":
			side := rapid.SampledFrom([]string{"w", "h"}).Draw(t, "side")
			v := rapid.SampledFrom(append([]string{"-1", "-9223372036854775808", "-2147483648"}, notNumbers...)).Draw(t, "value")
			loc := regexp.MustCompile(`<image[^>]*?\s` + side + `="([0-9]+)"`).FindStringSubmatchIndex(x)

			if loc == nil {
				t.Fatalf("VERIF-HARNESS: no size in %s", x)
			}

			x = x[:loc[2]] + v + x[loc[3]:]
			what, config = side+"="+v, true
		case "position":
			if len(all) == 0 {
				return
			}

			number(rapid.SampledFrom(all).Draw(t, "node"), rapid.SampledFrom([]string{"x", "y"}).Draw(t, "axis"), notNumbers)
		case "opacity":
			if len(all) == 0 {
				return
			}

			number(rapid.SampledFrom(all).Draw(t, "node"), "opacity", notFractions)
		case "markup", "unclosed":
			if len(all) == 0 {
				return
			}

			n := rapid.SampledFrom(all).Draw(t, "node")
			b := rapid.SampledFrom(broken).Draw(t, "markup")

			if kind == "unclosed" {
				b = rapid.SampledFrom([]string{"<a>", "<a><b></a>", "<layer><x></layer>", "<stack>", "<stack><layer>", "<a b='c'>"}).Draw(t, "unclosed")
			}

			x = strings.Replace(x, tag(n), b+tag(n), 1)
			what = b
		case "markup in a tag":
			if len(all) == 0 {
				return
			}

			n := rapid.SampledFrom(all).Draw(t, "node")
			b := rapid.SampledFrom([]string{" a", " a=b", " a=\"<\"", " a='&'", " a=\"&no;\"", " =\"1\"", " <", " \"", " a='1' 'b'", " a=\"\x01\"", " a=\"\xff\"", " a=\"&#0;\""}).Draw(t, "markup")
			x = strings.Replace(x, tag(n), tag(n)+b, 1)
			what = b
		case "no stack":
			i, j := strings.Index(x, "<stack"), strings.LastIndex(x, "</stack>")
			if k := regexp.MustCompile(`<image[^>]*>`).FindStringIndex(x); k != nil {
				i = k[1]
			}

			x = x[:i] + rapid.SampledFrom([]string{"", " ", "<!-- <stack/> -->", "<layer/>", "<Stack/>", "<x><stack/></x>", "<![CDATA[<stack></stack>]]>", "<stacks></stacks>"}).Draw(t, "instead") + x[j+len("</stack>"):]
		case "source", "source bits", "source cut", "checksum", "method", "missing source", "size of entry":
			if len(layers) == 0 {
				return
			}

			name := f.names[rapid.SampledFrom(layers).Draw(t, "layer").src]

			var png []byte

			for i := range fs {
				if fs[i].name == name {
					png = bytes.Clone(fs[i].data)
				}
			}

			what = name

			switch kind {
			case "source":
				b := []byte(rapid.SampledFrom([]string{"", "x", "not an image", "\x89PNG\r\n\x1a\n", "\x89PNG\r\n\x1a", "image/openraster", "<svg/>", "PK\x05\x06\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00"}).Draw(t, "contents"))

				set(name, b)

				what += fmt.Sprintf(" holds %q", b)
			case "source bits":
				i := rapid.IntRange(0, len(png)-1).Draw(t, "at")
				png[i] ^= byte(rapid.IntRange(1, 255).Draw(t, "bits"))

				set(name, png)

				what += fmt.Sprintf(" changed at %d", i)
			case "source cut":
				i := rapid.IntRange(0, len(png)-1).Draw(t, "length")

				set(name, png[:i])

				what += fmt.Sprintf(" cut to %d", i)
			case "missing source":
				fs = without(fs, name)
				want = ora.ErrInvalidSource
			case "checksum":
				if rapid.IntRange(0, 2).Draw(t, "which") == 0 {
					name, config = "stack.xml", true
				} else if rapid.Bool().Draw(t, "more") {
					// What follows an image is not looked at by those who read it.
					set(name, append(png, make([]byte, rapid.SampledFrom([]int{1, 100, 4096, 10000}).Draw(t, "more data"))...))
				}

				raw = &rawEntry{name: name, crc: rapid.Uint32Range(1, 1<<32-1).Draw(t, "crc")}
				what = name
				want = zip.ErrChecksum
			case "method":
				if rapid.IntRange(0, 2).Draw(t, "which") == 0 {
					name, config = "stack.xml", true
				}

				raw = &rawEntry{name: name, method: rapid.SampledFrom([]uint16{1, 7, 9, 12, 14, 93, 65535}).Draw(t, "method")}
				what = name
				want = zip.ErrAlgorithm
			case "size of entry":
				if rapid.IntRange(0, 2).Draw(t, "which") == 0 {
					name, config = "stack.xml", true
				}

				raw = &rawEntry{name: name, size: rapid.SampledFrom([]uint64{1, 100, 1 << 20}).Draw(t, "more")}
				what = name
				want = io.ErrUnexpectedEOF
			}
		case "mimetype":
			b := []byte("image/openraster")

			switch i := rapid.IntRange(0, len(b)-1).Draw(t, "at"); rapid.IntRange(0, 2).Draw(t, "change") {
			case 0:
				b[i] ^= byte(rapid.IntRange(1, 255).Draw(t, "bits"))
			case 1:
				b = b[:i]
			case 2:
				b = append(b, b[i:]...)
			}

			set("mimetype", b)

			what, config, want = string(b), true, ora.ErrInvalidMimeType
		}

		if what != "" && x == f.stackXML && raw == nil && (kind == "position" || kind == "opacity" || strings.HasPrefix(kind, "markup") || kind == "unclosed") {
			t.Fatalf("VERIF-HARNESS: nothing changed for %s %s: %s", kind, what, x)
		}

		set("stack.xml", []byte(x))

		var b []byte

		if raw != nil {
			b = archiveRaw(t, fs, *raw)
		} else {
			b = archiveOf(t, fs)
		}

		vt.Journal(b)

		zr := reader(t, b)

		var m limage.Image

		err := attempt(func() error {
			var err error

			m, err = ora.Decode(zr)

			return err
		})

		if err == nil || errors.Is(err, errPanic) || errors.Is(err, io.EOF) {
			t.Fatalf("%s: %s: error %v, decoded %s\n%s", kind, what, err, gen.Describe(m), x)
		}

		if m != nil {
			t.Fatalf("%s: %s: an image and the error %v", kind, what, err)
		}

		if want != nil && !errors.Is(err, want) {
			t.Fatalf("%s: %s: error %q instead of %q\n%s", kind, what, err, want, x)
		}

		if config {
			if got, err := ora.DecodeConfig(zr); err == nil || errors.Is(err, io.EOF) || want != nil && !errors.Is(err, want) {
				t.Fatalf("%s: %s: DecodeConfig: error %v, %v", kind, what, err, got)
			}
		}

		c.Label(kind)
		c.NonTrivial(kind, what, f.key())
		c.Sample("%s: %s: %v for %s", kind, what, err, x)
	})
}
