package xcf

import (
	"image"
	"io"
	"testing"

	"limageverif/cmp"
	"limageverif/gen"
	"limageverif/vt"
	"limageverif/xcfgen"
	"limageverif/xcfref"
	"pgregory.net/rapid"
	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/xcf"
)

var foreign = xcfgen.Opts{Max: 24, Large: 150, Layers: 4, Depth: 3, Many: true}

// TestC20_Foreign: files written by others, layer by layer.
func TestC20_Foreign(t *testing.T) {
	vt.Check(t, 4000, 80000, func(t *rapid.T, c *vt.Case) {
		d := xcfgen.Draw(t, foreign)
		b := d.Build()

		vt.Journal(b)

		got, err := decode(b)
		if err != nil {
			t.Fatalf("%v\nfile: %s", err, xcfgen.Describe(d.File))
		}

		want := xcfgen.Shows(d.File)

		if err := cmp.Trees(want, got, cmp.Want{Mode: kept, Masks: true, Clipped: true, Types: true}); err != nil {
			t.Fatalf("%v\nfile:    %s\nwanted:  %s\ndecoded: %s", err, xcfgen.Describe(d.File), gen.Describe(want), gen.Describe(got))
		}

		labels(c, d.Labels)

		if d.Labels["several layers"] || d.Labels["group"] {
			c.NonTrivial(d.Key())
		}

		c.Sample("%s", xcfgen.Describe(d.File))
	})
}

// TestC20_Render: files written by others show what they describe.
func TestC20_Render(t *testing.T) {
	vt.Check(t, 2500, 50000, func(t *rapid.T, c *vt.Case) {
		o := foreign
		o.NoDiss = true
		o.Large = 70
		d := xcfgen.Draw(t, o)
		b := d.Build()

		vt.Journal(b)

		got, err := decode(b)
		if err != nil {
			t.Fatalf("%v\nfile: %s", err, xcfgen.Describe(d.File))
		}

		want := xcfgen.Shows(d.File)

		if err := cmp.Pixels(want, got, image.Rect(-1, -1, int(d.W)+1, int(d.H)+1), image.Point{}, 0); err != nil {
			t.Fatalf("rendered %v\nfile:    %s\nwanted:  %s\ndecoded: %s", err, xcfgen.Describe(d.File), gen.Describe(want), gen.Describe(got))
		}

		labels(c, d.Labels)

		if d.Labels["several layers"] && (d.Labels["mode other than Normal"] || d.Labels["translucent layer"] || d.Labels["mask"]) {
			c.NonTrivial(d.Key())
		}

		c.Sample("%s", xcfgen.Describe(d.File))
	})
}

// TestC20_Far: files of which the parts are far from each other.
func TestC20_Far(t *testing.T) {
	vt.Check(t, 1500, 30000, func(t *rapid.T, c *vt.Case) {
		o := foreign
		o.Large = 70
		d := xcfgen.Draw(t, o)
		f, high := d.BuildSparse()

		vt.Journal(d.Build())

		for _, way := range []struct {
			name string
			fn   func(io.ReaderAt) (limage.Image, error)
		}{{"Decode", xcf.Decode}, {"DecodeCompressed", xcf.DecodeCompressed}} {
			var got limage.Image

			if err := attempt(func() error {
				var err error

				got, err = way.fn(f)

				return err
			}); err != nil {
				t.Fatalf("%s: %v\nparts up to %d\nfile: %s", way.name, err, high, xcfgen.Describe(d.File))
			}

			want := xcfgen.Shows(d.File)

			if err := cmp.Trees(want, got, cmp.Want{Mode: kept, Masks: true, Clipped: true, Types: way.name == "Decode"}); err != nil {
				t.Fatalf("%s: %v\nparts up to %d\nfile:    %s\nwanted:  %s\ndecoded: %s", way.name, err, high, xcfgen.Describe(d.File), gen.Describe(want), gen.Describe(got))
			}
		}

		var config image.Config

		if err := attempt(func() error {
			var err error

			config, err = xcf.DecodeConfig(f)

			return err
		}); err != nil || config.Width != int(d.W) || config.Height != int(d.H) {
			t.Fatalf("configuration: %v, %d×%d\nfile: %s", err, config.Width, config.Height, xcfgen.Describe(d.File))
		}

		labels(c, d.Labels)
		c.LabelIf(high >= 1<<31, "pointers from 2³¹")
		c.LabelIf(high >= 1<<32, "pointers from 2³²")
		c.LabelIf(high >= 1<<53, "pointers from 2⁵³")

		if high >= 1<<31 {
			c.NonTrivial(d.Key())
		}

		c.Sample("parts up to %d: %s", high, xcfgen.Describe(d.File))
	})
}

// TestC20_Corpus: files GIMP wrote.
func TestC20_Corpus(t *testing.T) {
	if n, _ := vt.Shard(); n != 0 {
		t.Skip()
	}

	for n, b := range corpus {
		vt.Journal(b)

		f, err := xcfref.Parse(b)
		if err != nil {
			t.Fatalf("VERIF-HARNESS: file %d: %v", n, err)
		}

		got, err := decode(b)
		if err != nil {
			t.Fatalf("file %d: %v", n, err)
		}

		want := xcfgen.Shows(f)

		// Text is compared by what it shows.
		if err := cmp.Trees(want, got, cmp.Want{Mode: kept, Masks: true, Clipped: true, Types: true}); err != nil {
			t.Fatalf("file %d: %v\nfile:    %s\ndecoded: %s", n, err, xcfgen.Describe(f), gen.Describe(got))
		}

		vt.Once(t.Name(), n, xcfgen.Describe(f))
	}
}
