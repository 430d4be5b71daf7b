package xcfgen

import (
	"fmt"

	"limageverif/gen"
	"limageverif/xcfref"
	"pgregory.net/rapid"
)

func noise(seed uint64, n int) []byte {
	b := make([]byte, n)

	for i := range b {
		b[i] = byte(gen.Mix(seed, uint64(i)))
	}

	return b
}

func cat(bs ...[]byte) []byte {
	var out []byte

	for _, b := range bs {
		out = append(out, b...)
	}

	return out
}

// Where a property is.
type Where int

// The places.
const (
	OnImage Where = iota
	OnLayer
	OnMask
)

// Extra draws properties that do not matter to what is shown.
func Extra(t *rapid.T, d *Drawn, where Where, label string) []xcfref.Prop {
	var ps []xcfref.Prop

	for n := rapid.IntRange(0, 6).Draw(t, label+"properties"); n > 0; n-- {
		ps = append(ps, extra(t, d, where, fmt.Sprintf("%s%d ", label, n)))
	}

	return ps
}

func extra(t *rapid.T, d *Drawn, where Where, label string) xcfref.Prop {
	seed := uint64(rapid.Uint32().Draw(t, label+"seed"))
	count := int(gen.Mix(seed, 1) % 5)
	flag := xcfref.U32(uint32(seed & 1))
	number := xcfref.U32(uint32(gen.Mix(seed, 2)))

	name := func(id string) string {
		d.label("property: "+id, true)

		return id
	}

	parasites := func() xcfref.Prop {
		var b []byte

		for i := 0; i < count; i++ {
			n := []string{"gimp-comment", "icc-profile", "x", "gimp-text-layer-x", "", "gimp-image-grid"}[gen.Mix(seed, uint64(i), 3)%6]
			b = append(b, xcfref.Parasite(n, uint32(gen.Mix(seed, uint64(i))%4), noise(seed+uint64(i), int(gen.Mix(seed, uint64(i), 4)%300)))...)
		}

		return xcfref.Prop{ID: xcfref.PropParasites, Data: b}
	}

	unknown := func() xcfref.Prop {
		id := []uint32{40, 41, 42, 50, 100, 255, 256, 1000, 0x7fffffff, 0x80000000, 0xffffffff}[gen.Mix(seed, 5)%11]
		n := []int{0, 1, 2, 3, 4, 8, 100, 5000}[gen.Mix(seed, 6)%8]

		return xcfref.Prop{ID: id, Data: noise(seed, n)}
	}

	ids := map[Where][]string{
		OnImage: {"guides", "resolution", "tattoo", "parasites", "unit", "paths", "user unit", "vectors", "old sample points", "sample points", "unknown", "unused color map"},
		OnLayer: {"active layer", "floating selection", "linked", "lock alpha", "edit mask", "show mask", "tattoo", "parasites", "text flags", "lock content", "group flags", "lock position", "color tag", "composite mode", "composite space", "blend space", "unknown"},
		OnMask:  {"active channel", "selection", "opacity", "float opacity", "visible", "linked", "lock content", "lock position", "show masked", "color", "float color", "tattoo", "parasites", "color tag", "unknown"},
	}[where]

	id := func() string {
		for {
			id := rapid.SampledFrom(ids).Draw(t, label+"id")
			if id == "unused color map" && d.Base == xcfref.Indexed {
				id = "unknown"
			}

			return name(id)
		}
	}()

	switch id {
	case "guides":
		var b []byte

		for i := 0; i < count; i++ {
			b = append(b, cat(xcfref.U32(uint32(i*7)), []byte{byte(1 + i%2)})...)
		}

		return xcfref.Prop{ID: xcfref.PropGuides, Data: b}
	case "resolution":
		return xcfref.Prop{ID: xcfref.PropResolution, Data: xcfref.F32(72, 300.5)}
	case "tattoo":
		return xcfref.Prop{ID: xcfref.PropTattoo, Data: number}
	case "parasites":
		return parasites()
	case "unit":
		return xcfref.Prop{ID: xcfref.PropUnit, Data: xcfref.U32(uint32(1 + count))}
	case "paths":
		b := xcfref.U32(0, uint32(count))

		for i := 0; i < count; i++ {
			b = append(b, cat(xcfref.Str("path"), flag, []byte{byte(i)}, flag)...)

			np := int(gen.Mix(seed, uint64(i)) % 4)

			switch v := gen.Mix(seed, uint64(i), 7)%3 + 1; v {
			case 1:
				b = append(b, xcfref.U32(uint32(np), 1)...)

				for j := 0; j < np; j++ {
					b = append(b, xcfref.U32(1, uint32(j), 5)...)
				}
			case 2:
				b = append(b, xcfref.U32(uint32(np), 2, 0)...)

				for j := 0; j < np; j++ {
					b = append(b, cat(xcfref.U32(1), xcfref.F32(1.5, 2.5))...)
				}
			case 3:
				b = append(b, xcfref.U32(uint32(np), 3, 0, 99)...)

				for j := 0; j < np; j++ {
					b = append(b, cat(xcfref.U32(1), xcfref.F32(1.5, 2.5))...)
				}
			}
		}

		return xcfref.Prop{ID: xcfref.PropPaths, Data: b}
	case "user unit":
		return xcfref.Prop{ID: xcfref.PropUserUnit, Data: cat(xcfref.F32(2.54), xcfref.U32(2), xcfref.Str("unit"), xcfref.Str("u"), xcfref.Str("u."), xcfref.Str(""), xcfref.Str("units"))}
	case "vectors":
		b := xcfref.U32(1, 0, uint32(count))

		for i := 0; i < count; i++ {
			m, k := int(gen.Mix(seed, uint64(i), 8)%3), int(gen.Mix(seed, uint64(i), 9)%3)
			b = append(b, cat(xcfref.Str("vector"), xcfref.U32(7), flag, flag, xcfref.U32(uint32(m), uint32(k)))...)

			for j := 0; j < m; j++ {
				b = append(b, xcfref.Parasite("p", 0, noise(seed, j*3))...)
			}

			for j := 0; j < k; j++ {
				nf, np := 2+int(gen.Mix(seed, uint64(j))%5), int(gen.Mix(seed, uint64(j), 1)%4)
				b = append(b, xcfref.U32(1, uint32(j&1), uint32(nf), uint32(np))...)

				for l := 0; l < np; l++ {
					b = append(b, xcfref.U32(uint32(l&1))...)
					b = append(b, xcfref.F32(make([]float32, nf)...)...)
				}
			}
		}

		return xcfref.Prop{ID: xcfref.PropVectors, Data: b}
	case "old sample points":
		return xcfref.Prop{ID: xcfref.PropOldSamplePoints, Data: noise(seed, 8*count)}
	case "sample points":
		return xcfref.Prop{ID: xcfref.PropSamplePoints, Data: noise(seed, 12*count)}
	case "unused color map":
		return xcfref.Prop{ID: xcfref.PropColormap, Data: cat(xcfref.U32(uint32(count)), noise(seed, 3*count))}
	case "active layer":
		return xcfref.Prop{ID: xcfref.PropActiveLayer}
	case "floating selection":
		n := 4
		if d.Version >= 11 {
			n = 8
		}

		return xcfref.Prop{ID: xcfref.PropFloatingSelection, Data: noise(seed, n)}
	case "linked":
		return xcfref.Prop{ID: xcfref.PropLinked, Data: flag}
	case "lock alpha":
		return xcfref.Prop{ID: xcfref.PropLockAlpha, Data: flag}
	case "edit mask":
		return xcfref.Prop{ID: xcfref.PropEditMask, Data: flag}
	case "show mask":
		return xcfref.Prop{ID: xcfref.PropShowMask, Data: flag}
	case "show masked":
		return xcfref.Prop{ID: xcfref.PropShowMasked, Data: flag}
	case "text flags":
		return xcfref.Prop{ID: xcfref.PropTextLayerFlags, Data: number}
	case "lock content":
		return xcfref.Prop{ID: xcfref.PropLockContent, Data: flag}
	case "group flags":
		return xcfref.Prop{ID: xcfref.PropGroupItemFlags, Data: flag}
	case "lock position":
		return xcfref.Prop{ID: xcfref.PropLockPosition, Data: flag}
	case "color tag":
		return xcfref.Prop{ID: xcfref.PropColorTag, Data: xcfref.U32(uint32(count))}
	case "composite mode":
		return xcfref.Prop{ID: xcfref.PropCompositeMode, Data: xcfref.U32(uint32(-count))}
	case "composite space":
		return xcfref.Prop{ID: xcfref.PropCompositeSpace, Data: xcfref.U32(uint32(-count))}
	case "blend space":
		return xcfref.Prop{ID: xcfref.PropBlendSpace, Data: xcfref.U32(uint32(count))}
	case "active channel":
		return xcfref.Prop{ID: xcfref.PropActiveChannel}
	case "selection":
		return xcfref.Prop{ID: xcfref.PropSelection}
	case "opacity":
		return xcfref.Prop{ID: xcfref.PropOpacity, Data: xcfref.U32(uint32(seed & 255))}
	case "float opacity":
		return xcfref.Prop{ID: xcfref.PropFloatOpacity, Data: xcfref.F32(0.25)}
	case "visible":
		return xcfref.Prop{ID: xcfref.PropVisible, Data: flag}
	case "color":
		return xcfref.Prop{ID: xcfref.PropColor, Data: noise(seed, 3)}
	case "float color":
		return xcfref.Prop{ID: xcfref.PropFloatColor, Data: xcfref.F32(0.1, 0.2, 0.3)}
	default:
		return unknown()
	}
}

// WithExtras gives the same image with properties and channels added.
func WithExtras(t *rapid.T, d *Drawn) *Drawn {
	e := &Drawn{Labels: map[string]bool{}}
	f := *d.File
	e.File = &f
	f.Extra = Extra(t, e, OnImage, "image ")
	f.Layers = withExtras(t, e, f.Layers, "layer ")

	for n := rapid.IntRange(0, 3).Draw(t, "channels"); n > 0; n-- {
		c := &xcfref.Channel{Name: gen.Name(t, "channel name"), W: f.W, H: f.H, Pixels: noise(f.Seed, int(f.W*f.H)), Extra: Extra(t, e, OnMask, "channel ")}
		f.Channels = append(f.Channels, c)

		e.label("extra channel", true)
	}

	return e
}

func withExtras(t *rapid.T, d *Drawn, ls []*xcfref.Layer, label string) []*xcfref.Layer {
	out := make([]*xcfref.Layer, len(ls))

	for i, l := range ls {
		c := *l
		c.Extra = Extra(t, d, OnLayer, fmt.Sprintf("%s%d ", label, i))
		c.Items = withExtras(t, d, c.Items, fmt.Sprintf("%s%d ", label, i))

		if c.Mask != nil {
			m := *c.Mask
			m.Extra = Extra(t, d, OnMask, fmt.Sprintf("%s%d mask ", label, i))
			c.Mask = &m

			d.label("properties on a mask", len(m.Extra) > 0)
		}

		out[i] = &c
	}

	return out
}
