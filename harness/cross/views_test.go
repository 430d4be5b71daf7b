package cross

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	imgdraw "image/draw"
	"reflect"
	"sync"
	"testing"

	"limageverif/cmp"
	"limageverif/gen"
	"limageverif/vt"
	"pgregory.net/rapid"
	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/ora"
	"vimagination.zapto.org/limage/xcf"
)

// clone makes a copy that shares nothing with the original but functions, color
// models, palettes, and what has fields that are not exported, which do not change
// here.
func clone(m image.Image) image.Image {
	return deep(reflect.ValueOf(m)).Interface().(image.Image)
}

func deep(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() || opaque(v.Type().Elem()) {
			return v
		}

		n := reflect.New(v.Type().Elem())

		n.Elem().Set(deep(v.Elem()))

		return n
	case reflect.Interface:
		if v.IsNil() {
			return v
		}

		if _, ok := v.Interface().(color.Model); ok {
			return v
		}

		n := reflect.New(v.Type()).Elem()

		n.Set(deep(v.Elem()))

		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}

		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())

		if v.Type().Elem().Kind() == reflect.Uint8 {
			reflect.Copy(n, v)

			return n
		}

		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(deep(v.Index(i)))
		}

		return n
	case reflect.Struct:
		if opaque(v.Type()) {
			return v
		}

		n := reflect.New(v.Type()).Elem()

		for i := 0; i < v.NumField(); i++ {
			n.Field(i).Set(deep(v.Field(i)))
		}

		return n
	}

	return v
}

// opaque reports whether there are fields that are not exported.
func opaque(t reflect.Type) bool {
	if t.Kind() != reflect.Struct {
		return false
	}

	for i := 0; i < t.NumField(); i++ {
		if !t.Field(i).IsExported() {
			return true
		}
	}

	return false
}

// origin is where an image comes from.
var origins = []format{{"drawn", func(m image.Image) (limage.Image, error) { return m.(limage.Image), nil }}, {"XCF", viaXCF}, {"ORA", viaORA}, {"XCF, compressed", viaCompressed}}

// world is an image, and what was taken of it.
type world struct {
	im    limage.Image
	views []view
	log   []string
}

// view is a sub-image, or a layer, of the image.
type view struct {
	m    image.Image     // what is read
	of   image.Image     // what it is a view of
	area image.Rectangle // what it shows of that
	what string
}

func (w *world) did(f string, args ...any) { w.log = append(w.log, fmt.Sprintf(f, args...)) }

// all lists the layers, in all groups.
func all(g limage.Image) []*limage.Layer {
	var ls []*limage.Layer

	for i := range g {
		ls = append(ls, &g[i])

		if sub, ok := cmp.AsGroup(cmp.Base(g[i].Image)); ok {
			ls = append(ls, all(sub)...)
		}
	}

	return ls
}

// canvases lists what can be drawn on.
func canvases(m image.Image) []imgdraw.Image {
	switch im := m.(type) {
	case limage.Image:
		var ds []imgdraw.Image

		for _, l := range im {
			ds = append(ds, canvases(l.Image)...)
		}

		return ds
	case *limage.Image:
		return canvases(*im)
	case limage.Layer:
		return canvases(im.Image)
	case *limage.Layer:
		return canvases(im.Image)
	case limage.MaskedImage:
		return append(canvases(im.Image), im.Mask)
	case *limage.MaskedImage:
		return append(canvases(im.Image), im.Mask)
	case limage.Text:
		return canvases(im.Image)
	case *limage.Text:
		return canvases(im.Image)
	case imgdraw.Image:
		return []imgdraw.Image{im}
	}

	return nil
}

func any64(t *rapid.T, label string) color.NRGBA64 {
	v := rapid.Uint64().Draw(t, label)
	c := color.NRGBA64{R: uint16(v), G: uint16(v >> 16), B: uint16(v >> 32), A: uint16(v >> 48)}

	if v%3 == 0 {
		c.A = 0xffff
	}

	return c
}

// draw draws on an image, or a mask.
func (w *world) draw(t *rapid.T) bool {
	ds := canvases(w.im)
	if len(ds) == 0 {
		return false
	}

	n := rapid.IntRange(0, len(ds)-1).Draw(t, "image")
	d := ds[n]
	b := d.Bounds()

	if b.Empty() {
		return false
	}

	c := any64(t, "colour")

	if rapid.IntRange(0, 3).Draw(t, "fill") == 0 {
		imgdraw.Draw(d, b, image.NewUniform(c), image.Point{}, imgdraw.Src)
		w.did("filled image %d (%T) with %v", n, d, c)

		return true
	}

	x, y := rapid.IntRange(b.Min.X, b.Max.X-1).Draw(t, "x"), rapid.IntRange(b.Min.Y, b.Max.Y-1).Draw(t, "y")

	d.Set(x, y, c)
	w.did("set %d,%d of image %d (%T) to %v", x, y, n, d, c)

	return true
}

// change changes the layers.
func (w *world) change(t *rapid.T) bool {
	ls := all(w.im)
	n := rapid.IntRange(0, len(ls)-1).Draw(t, "layer")
	l := ls[n]

	// What was taken before need not follow.
	w.views = nil

	switch k := rapid.IntRange(0, 7).Draw(t, "change"); k {
	case 0:
		l.Invisible = !l.Invisible
		w.did("layer %d: invisible %t", n, l.Invisible)
	case 1:
		l.Transparency = uint8(rapid.IntRange(0, 255).Draw(t, "transparency"))
		w.did("layer %d: transparency %d", n, l.Transparency)
	case 2:
		l.Mode = rapid.SampledFrom(shared).Draw(t, "mode")
		w.did("layer %d: mode %s", n, l.Mode)
	case 3:
		l.LayerBounds = l.LayerBounds.Add(image.Pt(rapid.IntRange(-5, 5).Draw(t, "by x"), rapid.IntRange(-5, 5).Draw(t, "by y")))
		w.did("layer %d: bounds %v", n, l.LayerBounds)
	case 4:
		o := ls[rapid.IntRange(0, len(ls)-1).Draw(t, "other")]
		_, g1 := cmp.AsGroup(cmp.Base(l.Image))
		_, g2 := cmp.AsGroup(cmp.Base(o.Image))

		if g1 || g2 {
			return false // a group could get into itself
		}

		l.Image, o.Image = o.Image, l.Image
		l.LayerBounds, o.LayerBounds = image.Rectangle{Min: l.LayerBounds.Min, Max: l.LayerBounds.Min.Add(o.LayerBounds.Size())}, image.Rectangle{Min: o.LayerBounds.Min, Max: o.LayerBounds.Min.Add(l.LayerBounds.Size())}

		w.did("layer %d: image exchanged", n)
	case 5:
		m, _ := gen.OneImage(t, image.Rectangle{Max: l.LayerBounds.Size()}, gen.AllKinds(), nil)
		l.Image = m
		w.did("layer %d: another image", n)
	case 6:
		if len(w.im) < 2 {
			return false
		}

		n = rapid.IntRange(0, len(w.im)-1).Draw(t, "removed")
		w.im = append(w.im[:n], w.im[n+1:]...)
		w.did("layer %d of the image removed", n)
	default:
		r := image.Rect(0, 0, rapid.IntRange(1, 6).Draw(t, "w"), rapid.IntRange(1, 6).Draw(t, "h"))
		m, _ := gen.OneImage(t, r, gen.AllKinds(), nil)

		w.im = append(w.im, limage.Layer{Name: "new", LayerBounds: r.Add(image.Pt(rapid.IntRange(-3, 6).Draw(t, "new x"), rapid.IntRange(-3, 6).Draw(t, "new y"))), Image: m})
		w.did("layer appended")
	}

	return true
}

// take takes a view.
func (w *world) take(t *rapid.T) bool {
	var of image.Image = w.im

	ls := all(w.im)
	n := rapid.IntRange(-1, len(ls)-1).Draw(t, "of")
	v := view{of: of, area: w.im.Bounds(), what: "image"}

	if n >= 0 {
		v = view{of: *ls[n], area: ls[n].LayerBounds, what: fmt.Sprint("layer ", n)}
	}

	v.m = v.of

	for i := rapid.IntRange(0, 2).Draw(t, "times"); i > 0; i-- {
		b := v.area.Inset(-1)
		r := image.Rect(rapid.IntRange(b.Min.X, b.Max.X).Draw(t, "x0"), rapid.IntRange(b.Min.Y, b.Max.Y).Draw(t, "y0"), rapid.IntRange(b.Min.X, b.Max.X).Draw(t, "x1"), rapid.IntRange(b.Min.Y, b.Max.Y).Draw(t, "y1"))

		v.m = v.m.(interface {
			SubImage(image.Rectangle) image.Image
		}).SubImage(r)
		v.area = v.area.Intersect(r)
		v.what += fmt.Sprint(" - ", r)

		if v.area.Empty() {
			return false
		}
	}

	w.views = append(w.views, v)
	w.did("view %d: %s", len(w.views)-1, v.what)

	return true
}

// look compares what everything shows with what fresh copies show.
func (w *world) look() error {
	copied := clone(w.im).(limage.Image)
	b := w.im.Bounds()

	if b != copied.Bounds() {
		return fmt.Errorf("the bounds are %v, of a copy %v", b, copied.Bounds())
	}

	if err := cmp.Pixels(copied, w.im, b.Inset(-1), image.Point{}, 0); err != nil {
		return fmt.Errorf("what a copy shows and what the image shows: %w", err)
	}

	for n, v := range w.views {
		if err := cmp.Pixels(clone(v.of), v.m, v.area, image.Point{}, 0); err != nil {
			return fmt.Errorf("what a copy shows and what view %d (%s) shows: %w", n, v.what, err)
		}
	}

	return nil
}

// saves encodes an image in both formats.
func saves(m image.Image) (x, o []byte, errx, erro error) {
	var (
		f memory
		b bytes.Buffer
	)

	errx = attempt(func() error { return xcf.Encode(&f, m) })
	erro = attempt(func() error { return ora.Encode(&b, m) })

	return f.b, b.Bytes(), errx, erro
}

func text(err error) string {
	if err == nil {
		return "no error"
	}

	return err.Error()
}

// TestC36_History: an image which has been read, encoded, drawn on and changed
// shows, and is saved as, what a fresh one of the same content is.
func TestC36_History(t *testing.T) {
	vt.Check(t, 3000, 60000, func(t *rapid.T, c *vt.Case) {
		w, kinds := drawWorld(t, c, 9)

		var looked, drawn, changed, taken, saved int

		for i := rapid.IntRange(3, 14).Draw(t, "steps"); i > 0; i-- {
			switch rapid.IntRange(0, 9).Draw(t, "step") {
			case 0, 1, 2:
				if w.draw(t) && looked > 0 {
					drawn++
				}
			case 3, 4:
				if w.change(t) && looked > 0 {
					changed++
				}
			case 5, 6:
				if w.take(t) {
					taken++
				}
			case 7:
				copied := clone(w.im)
				x1, o1, ex1, eo1 := saves(w.im)
				x2, o2, ex2, eo2 := saves(copied)

				if text(ex1) != text(ex2) || text(eo1) != text(eo2) || ex1 == nil && !bytes.Equal(x1, x2) || eo1 == nil && !bytes.Equal(o1, o2) {
					t.Fatalf("saving the image (XCF: %v, ORA: %v) and saving a copy (XCF: %v, ORA: %v) give different files\n%v\nimage: %s", ex1, eo1, ex2, eo2, w.log, gen.Describe(w.im))
				}

				w.did("saved")
				saved++
			default:
				if err := w.look(); err != nil {
					t.Fatalf("%v\n%v\nimage: %s", err, w.log, gen.Describe(w.im))
				}

				w.did("looked")
				looked++
			}
		}

		if err := w.look(); err != nil {
			t.Fatalf("%v\n%v\nimage: %s", err, w.log, gen.Describe(w.im))
		}

		c.LabelIf(drawn > 0, "drawn on after having been read")
		c.LabelIf(changed > 0, "changed after having been read")
		c.LabelIf(taken > 0, "with views")
		c.LabelIf(saved > 0, "saved")

		if drawn+changed > 0 {
			c.NonTrivial(w.log, kinds)
		}

		c.Sample("%v: %s", w.log, gen.Describe(w.im))
	})
}

func drawWorld(t *rapid.T, c *vt.Case, limit int) (*world, string) {
	tw, th := rapid.IntRange(1, limit).Draw(t, "w"), rapid.IntRange(1, limit).Draw(t, "h")
	kinds := gen.AllKinds()
	o := rapid.SampledFrom(origins).Draw(t, "origin")
	opts := gen.Opts{Depth: 3, Layers: 4, Modes: shared, Kinds: kinds, Masks: true, Text: true, EmptyOK: true, Pointers: true, Nested: true, Loose: true, Offset: true}
	opts.GroupMask = o.name != "ORA"
	tr := gen.DrawTree(t, tw, th, opts)

	if o.name == "ORA" && tr.Image.Bounds().Empty() {
		o = origins[0]
	}

	im, err := o.via(tr.Image)
	if err != nil {
		t.Fatalf("%v\noriginal: %s", err, gen.Describe(tr.Image))
	}

	labels(c, tr.Labels)
	c.Label("origin: " + o.name)

	return &world{im: im, log: []string{o.name}}, tr.Key
}

// TestC36_Readers: any number of goroutines may use an image at once.
func TestC36_Readers(t *testing.T) {
	vt.Check(t, 600, 12000, func(t *rapid.T, c *vt.Case) {
		w, kinds := drawWorld(t, c, rapid.SampledFrom([]int{9, 9, 9, 70}).Draw(t, "limit"))
		copied := clone(w.im).(limage.Image)
		b := w.im.Bounds()
		seed := uint64(rapid.Uint32().Draw(t, "order"))
		threads := rapid.IntRange(2, 6).Draw(t, "goroutines")
		tasks := make([]int, threads)

		for i := range tasks {
			tasks[i] = rapid.IntRange(0, 4).Draw(t, "task")
		}

		var pts []image.Point

		for i := uint64(0); i < 60 && !b.Empty(); i++ {
			pts = append(pts, image.Pt(b.Min.X+int(gen.Mix(seed, i)%uint64(b.Dx())), b.Min.Y+int(gen.Mix(seed, i, 1)%uint64(b.Dy()))))
		}

		var want []cmp.RGBA

		for _, p := range pts {
			want = append(want, cmp.Of(copied.At(p.X, p.Y)))
		}

		x, o, ex, eo := saves(copied)

		var (
			wg    sync.WaitGroup
			start = make(chan struct{})
			errs  = make(chan error, threads)
		)

		for n, task := range tasks {
			wg.Add(1)

			go func() {
				defer wg.Done()

				<-start

				errs <- attempt(func() error {
					switch task {
					case 0, 1:
						for i := range pts {
							p := pts[(i*7+n*13)%len(pts)]

							if got := cmp.Of(w.im.At(p.X, p.Y)); got != want[(i*7+n*13)%len(pts)] {
								return fmt.Errorf("at %v: %v, read alone %v", p, got, want[(i*7+n*13)%len(pts)])
							}
						}
					case 2:
						for i := range pts {
							r := image.Rectangle{Min: pts[(i+n)%len(pts)], Max: b.Max}
							sub := w.im.SubImage(r)

							if got := cmp.Of(sub.At(r.Min.X, r.Min.Y)); got != want[(i+n)%len(pts)] {
								return fmt.Errorf("sub-image %v: %v, read alone %v", r, got, want[(i+n)%len(pts)])
							}
						}
					case 3:
						var f memory

						if err := xcf.Encode(&f, w.im); text(err) != text(ex) || err == nil && !bytes.Equal(f.b, x) {
							return fmt.Errorf("XCF: %v, alone: %v; %d bytes, %d", err, ex, len(f.b), len(x))
						}
					default:
						var f bytes.Buffer

						if err := ora.Encode(&f, w.im); text(err) != text(eo) || err == nil && !bytes.Equal(f.Bytes(), o) {
							return fmt.Errorf("ORA: %v, alone: %v; %d bytes, %d", err, eo, f.Len(), len(o))
						}
					}

					return nil
				})
			}()
		}

		close(start)
		wg.Wait()
		close(errs)

		for err := range errs {
			if err != nil {
				t.Fatalf("%v\ntasks: %v\nimage: %s", err, tasks, gen.Describe(w.im))
			}
		}

		c.Label(fmt.Sprintf("%d goroutines", threads))
		c.NonTrivial(kinds, tasks, seed)
		c.Sample("tasks %v: %s", tasks, gen.Describe(w.im))
	})
}
