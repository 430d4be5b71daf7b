package ora

import (
	"archive/zip"
	"bytes"
	"errors"
	"fmt"
	"image"
	"image/png"
	"testing"

	"limageverif/gen"
	"limageverif/vt"
	"pgregory.net/rapid"
	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/ora"
)

func TestMain(m *testing.M) { vt.Main(m) }

// ops are the modes OpenRaster has, with their names.
var ops = map[limage.Composite]string{
	limage.CompositeNormal:          "svg:src-over",
	limage.CompositeMultiply:        "svg:multiply",
	limage.CompositeScreen:          "svg:screen",
	limage.CompositeOverlay:         "svg:overlay",
	limage.CompositeDarkenOnly:      "svg:darken",
	limage.CompositeLightenOnly:     "svg:lighten",
	limage.CompositeDodge:           "svg:color-dodge",
	limage.CompositeBurn:            "svg:color-burn",
	limage.CompositeHardLight:       "svg:hard-light",
	limage.CompositeSoftLight:       "svg:soft-light",
	limage.CompositeDifference:      "svg:difference",
	limage.CompositeColor:           "svg:color",
	limage.CompositeLuminosity:      "svg:luminosity",
	limage.CompositeHue:             "svg:hue",
	limage.CompositeSaturation:      "svg:saturation",
	limage.CompositePlus:            "svg:plus",
	limage.CompositeDestinationIn:   "svg:dst-in",
	limage.CompositeDestinationOut:  "svg:dst-out",
	limage.CompositeSourceAtop:      "svg:src-atop",
	limage.CompositeDestinationAtop: "svg:dst-atop",
}

// oraModes lists the modes OpenRaster has, in order.
func oraModes() []limage.Composite {
	var ms []limage.Composite

	for m := limage.CompositeNormal; m <= limage.CompositePassThrough; m++ {
		if _, ok := ops[m]; ok {
			ms = append(ms, m)
		}
	}

	return ms
}

// allModes lists every mode.
func allModes() []limage.Composite {
	var ms []limage.Composite

	for m := limage.CompositeNormal; m <= limage.CompositePassThrough; m++ {
		ms = append(ms, m)
	}

	return ms
}

// fixedModes lists every mode but Dissolve, which is random.
func fixedModes() []limage.Composite {
	var ms []limage.Composite

	for _, m := range allModes() {
		if m != limage.CompositeDissolve {
			ms = append(ms, m)
		}
	}

	return ms
}

// decodedMode gives the mode a layer has after having been in an ORA file.
func decodedMode(m limage.Composite) limage.Composite {
	if _, ok := ops[m]; ok {
		return m
	}

	return limage.CompositeNormal
}

func labels(c *vt.Case, tr *gen.Tree) {
	for l := range tr.Labels {
		c.Label(l)
	}
}

// attempt turns a panic into an error.
func attempt(fn func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%w: %v", errPanic, r)
		}
	}()

	return fn()
}

var errPanic = errors.New("panic")

func encode(m image.Image) ([]byte, error) {
	var buf bytes.Buffer

	err := attempt(func() error { return ora.Encode(&buf, m) })

	return buf.Bytes(), err
}

func reader(t *rapid.T, b []byte) *zip.Reader {
	zr, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
	if err != nil {
		t.Fatalf("not a ZIP archive: %v", err)
	}

	return zr
}

func decode(t *rapid.T, b []byte) (m limage.Image, err error) {
	zr := reader(t, b)

	err = attempt(func() error {
		var err error

		m, err = ora.Decode(zr)

		return err
	})

	return m, err
}

func pngOf(t *rapid.T, m image.Image) []byte {
	var buf bytes.Buffer

	if err := png.Encode(&buf, m); err != nil {
		t.Fatalf("VERIF-HARNESS: PNG: %v", err)
	}

	return buf.Bytes()
}

// exact lists the kinds of image whose pixels PNG files and layers keep exactly.
var exact = []gen.Kind{gen.NRGBA, gen.Gray, gen.RGB, gen.Foreign, gen.Sub, gen.NRGBA64, gen.Gray16}

// size draws the size of a canvas.
func size(t *rapid.T, large int) (int, int) {
	limit := 24
	if rapid.IntRange(0, 9).Draw(t, "size kind") == 0 {
		limit = large
	}

	return gen.Dim(t, limit, "width"), gen.Dim(t, limit, "height")
}
