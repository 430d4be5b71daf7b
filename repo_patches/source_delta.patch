From e5c4b81a00ee5304c25118d5a63ac13f282646ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:48 +0000
Subject: [PATCH 01/74] fix: blend green and blue with their own bottom channel

---
 composite.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/composite.go b/composite.go
index 0033617..4b099f1 100644
--- a/composite.go
+++ b/composite.go
@@ -171,8 +171,8 @@ func (c Composite) Composite(b, t color.Color) color.Color {
 
 	return color.NRGBA64{
 		R: blend(bottom.A, bottom.R, ma, f(bottom.R, top.R)),
-		G: blend(bottom.A, bottom.G, ma, f(bottom.R, top.G)),
-		B: blend(bottom.A, bottom.B, ma, f(bottom.R, top.B)),
+		G: blend(bottom.A, bottom.G, ma, f(bottom.G, top.G)),
+		B: blend(bottom.A, bottom.B, ma, f(bottom.B, top.B)),
 		A: bottom.A,
 	}
 }
-- 
2.43.0


From 76987fb2b09261c127b88eb4e7d217a003aa5849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:48 +0000
Subject: [PATCH 02/74] fix: grain merge subtracts the mid value, it does not
 add it

---
 composite.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/composite.go b/composite.go
index 4b099f1..6626641 100644
--- a/composite.go
+++ b/composite.go
@@ -303,8 +303,15 @@ func compositeGrainExtract(ax, ay uint16) uint16 {
 	return clamp(x - y + 0x7fff)
 }
 
-func compositeGrainMerge(x, y uint16) uint16 {
-	return clamp(uint32(x) + uint32(y) + 0x7fff)
+func compositeGrainMerge(ax, ay uint16) uint16 {
+	x := uint32(ax)
+	y := uint32(ay)
+
+	if x+y < 0x7fff {
+		return 0
+	}
+
+	return clamp(x + y - 0x7fff)
 }
 
 func compositeHue(bottom, top color.NRGBA64) color.Color {
-- 
2.43.0


From 64a6b44032180b766d567988694138fba9eaeca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:48 +0000
Subject: [PATCH 03/74] fix: burn clamps to black instead of wrapping to white

---
 composite.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/composite.go b/composite.go
index 6626641..181f03a 100644
--- a/composite.go
+++ b/composite.go
@@ -271,13 +271,13 @@ func compositeDodge(x, y uint16) uint16 {
 func compositeBurn(x, y uint16) uint16 {
 	if y == 0 {
 		if x == 0xffff {
-			return 0
+			return 0xffff
 		}
 
-		return 0xffff
+		return 0
 	}
 
-	return clamp(0xffff - 0xffff*(0xffff-uint32(x))/uint32(y))
+	return 0xffff - clamp(0xffff*(0xffff-uint32(x))/uint32(y))
 }
 
 func compositeHardLight(x, y uint16) uint16 {
-- 
2.43.0


From ac807b550d10b78ed36ed0ca7ff935f847c1b4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:49 +0000
Subject: [PATCH 04/74] fix: hard light wrapped black to white for a top value
 of 0x7fff

---
 composite.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composite.go b/composite.go
index 181f03a..76bbb8d 100644
--- a/composite.go
+++ b/composite.go
@@ -281,7 +281,7 @@ func compositeBurn(x, y uint16) uint16 {
 }
 
 func compositeHardLight(x, y uint16) uint16 {
-	if y < 0x7fff {
+	if y <= 0x7fff {
 		return uint16(uint32(x) * (uint32(y) << 1) / 0xffff)
 	}
 
-- 
2.43.0


From 4686eb487b2d69f5c35a4862861925bc89276a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:49 +0000
Subject: [PATCH 05/74] fix: overlay and soft light screen the bottom value,
 not the top one

---
 composite.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composite.go b/composite.go
index 76bbb8d..a46d889 100644
--- a/composite.go
+++ b/composite.go
@@ -211,7 +211,7 @@ func compositeScreen(x, y uint16) uint16 {
 func compositeOverlay(ax, ay uint16) uint16 {
 	x := uint32(ax)
 	y := uint32(ay)
-	t := 0xffff - y
+	t := 0xffff - x
 
 	return uint16((0xffff-y)*(x*x/0xffff)/0xffff + y*(0xffff-(t*t/0xffff))/0xffff)
 }
-- 
2.43.0


From 97b0cffb401d15a3abced7f0721c4150140327e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:49 +0000
Subject: [PATCH 06/74] fix: dissolve by the alpha of the top colour, not of
 the bottom

---
 composite.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composite.go b/composite.go
index a46d889..24d2eda 100644
--- a/composite.go
+++ b/composite.go
@@ -191,7 +191,7 @@ func compositeNormal(bottom, top color.NRGBA64) color.NRGBA64 {
 }
 
 func compositeDissolve(bottom, top color.NRGBA64) color.NRGBA64 {
-	if uint16(rand.Int31n(0xffff)) < bottom.A {
+	if uint16(rand.Int31n(0xffff)) < top.A {
 		top.A = 0xffff
 
 		return top
-- 
2.43.0


From d1f15b8f9f9f1c586d0fdb39421c1c43463e203b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:59 +0000
Subject: [PATCH 07/74] fix: hue, saturation, color, value and luminosity modes
 heed the top's alpha

A transparent or translucent top replaced the component completely, and the
Color mode also gave the bottom the top's alpha.
---
 composite.go | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/composite.go b/composite.go
index 24d2eda..8ab7e86 100644
--- a/composite.go
+++ b/composite.go
@@ -140,15 +140,15 @@ func (c Composite) Composite(b, t color.Color) color.Color {
 	case CompositeDissolve:
 		return compositeDissolve(bottom, top)
 	case CompositeHue:
-		return compositeHue(bottom, top)
+		return blendColour(bottom, top, compositeHue(bottom, top))
 	case CompositeSaturation:
-		return compositeSaturation(bottom, top)
+		return blendColour(bottom, top, compositeSaturation(bottom, top))
 	case CompositeColor:
-		return compositeColor(bottom, top)
+		return blendColour(bottom, top, compositeColor(bottom, top))
 	case CompositeValue:
-		return compositeValue(bottom, top)
+		return blendColour(bottom, top, compositeValue(bottom, top))
 	case CompositeLuminosity:
-		return compositeColor(top, bottom)
+		return blendColour(bottom, top, compositeColor(top, bottom))
 	case CompositePlus:
 		return compositePlus(bottom, top)
 	case CompositeDestinationIn:
@@ -367,6 +367,24 @@ func compositeAtop(bottom, top color.NRGBA64) color.NRGBA64 {
 	return compositeNormal(bottom, top)
 }
 
+// blendColour mixes the composed colour into the bottom colour, according to the
+// alpha channels of both, as is done for the per-channel modes.
+func blendColour(bottom, top color.NRGBA64, composed color.Color) color.Color {
+	if bottom.A == 0 {
+		return color.NRGBA64{}
+	}
+
+	ma := internal.Min(bottom.A, top.A)
+	c := internal.ColourToNRGBA(composed)
+
+	return color.NRGBA64{
+		R: blend(bottom.A, bottom.R, ma, c.R),
+		G: blend(bottom.A, bottom.G, ma, c.G),
+		B: blend(bottom.A, bottom.B, ma, c.B),
+		A: bottom.A,
+	}
+}
+
 func clamp(n uint32) uint16 {
 	if n > 0xffff {
 		return 0xffff
-- 
2.43.0


From 0e457df680354c20bd318d15fe6e9135c9151cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:59 +0000
Subject: [PATCH 08/74] fix: plus, destination in and out and the atop modes
 were rendered as normal

---
 composite.go | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/composite.go b/composite.go
index 8ab7e86..de51eb6 100644
--- a/composite.go
+++ b/composite.go
@@ -352,19 +352,48 @@ func compositeValue(bottom, top color.NRGBA64) color.Color {
 }
 
 func compositePlus(bottom, top color.NRGBA64) color.NRGBA64 {
-	return compositeNormal(bottom, top)
+	a := clamp(uint32(bottom.A) + uint32(top.A))
+	if a == 0 {
+		return color.NRGBA64{}
+	}
+
+	plus := func(x, y uint16) uint16 {
+		p := uint32(x)*uint32(bottom.A)/0xffff + uint32(y)*uint32(top.A)/0xffff
+
+		return uint16(0xffff * uint32(clamp(p)) / uint32(a))
+	}
+
+	return color.NRGBA64{
+		R: plus(bottom.R, top.R),
+		G: plus(bottom.G, top.G),
+		B: plus(bottom.B, top.B),
+		A: a,
+	}
 }
 
 func compositeDstIn(bottom, top color.NRGBA64) color.NRGBA64 {
-	return compositeNormal(bottom, top)
+	bottom.A = uint16(uint32(bottom.A) * uint32(top.A) / 0xffff)
+
+	return bottom
 }
 
 func compositeDstOut(bottom, top color.NRGBA64) color.NRGBA64 {
-	return compositeNormal(bottom, top)
+	top.A = 0xffff - top.A
+
+	return compositeDstIn(bottom, top)
 }
 
 func compositeAtop(bottom, top color.NRGBA64) color.NRGBA64 {
-	return compositeNormal(bottom, top)
+	atop := func(x, y uint16) uint16 {
+		return uint16(uint32(x)*uint32(0xffff-top.A)/0xffff + uint32(y)*uint32(top.A)/0xffff)
+	}
+
+	return color.NRGBA64{
+		R: atop(bottom.R, top.R),
+		G: atop(bottom.G, top.G),
+		B: atop(bottom.B, top.B),
+		A: bottom.A,
+	}
 }
 
 // blendColour mixes the composed colour into the bottom colour, according to the
-- 
2.43.0


From 1ea25945fd95b098451a194264ca1f0f7083cabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:00 +0000
Subject: [PATCH 09/74] fix: PalettedAlpha.Opaque gave the opposite answer

---
 indexedalpha.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indexedalpha.go b/indexedalpha.go
index dd51a6f..c6f3d5a 100644
--- a/indexedalpha.go
+++ b/indexedalpha.go
@@ -68,11 +68,11 @@ func (p *PalettedAlpha) IndexAlphaAt(x, y int) lcolor.IndexedAlpha {
 func (p *PalettedAlpha) Opaque() bool {
 	for _, c := range p.Pix {
 		if c.A != 255 {
-			return true
+			return false
 		}
 	}
 
-	return false
+	return true
 }
 
 // PixOffset returns the index of the Pix array corresponding to the given
-- 
2.43.0


From 2e0603fac9ff9e0ef364a5b76ff15c0fbbe7515f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:00 +0000
Subject: [PATCH 10/74] fix: Opaque looked at pixels outside of a sub-image

---
 grayalpha.go    | 8 +++++---
 indexedalpha.go | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/grayalpha.go b/grayalpha.go
index 2349a4b..92c396d 100644
--- a/grayalpha.go
+++ b/grayalpha.go
@@ -52,9 +52,11 @@ func (g *GrayAlpha) GrayAlphaAt(x, y int) lcolor.GrayAlpha {
 
 // Opaque returns true if all pixels have full alpha.
 func (g *GrayAlpha) Opaque() bool {
-	for _, c := range g.Pix {
-		if c.A != 255 {
-			return false
+	for y := g.Rect.Min.Y; y < g.Rect.Max.Y; y++ {
+		for x := g.Rect.Min.X; x < g.Rect.Max.X; x++ {
+			if g.Pix[g.PixOffset(x, y)].A != 255 {
+				return false
+			}
 		}
 	}
 
diff --git a/indexedalpha.go b/indexedalpha.go
index c6f3d5a..8de9420 100644
--- a/indexedalpha.go
+++ b/indexedalpha.go
@@ -66,9 +66,11 @@ func (p *PalettedAlpha) IndexAlphaAt(x, y int) lcolor.IndexedAlpha {
 
 // Opaque returns true if the image is completely opaque.
 func (p *PalettedAlpha) Opaque() bool {
-	for _, c := range p.Pix {
-		if c.A != 255 {
-			return false
+	for y := p.Rect.Min.Y; y < p.Rect.Max.Y; y++ {
+		for x := p.Rect.Min.X; x < p.Rect.Max.X; x++ {
+			if p.Pix[p.PixOffset(x, y)].A != 255 {
+				return false
+			}
 		}
 	}
 
-- 
2.43.0


From 71e22343203fc2fd054a481412ef64149d311e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:00 +0000
Subject: [PATCH 11/74] fix: an empty sub-image of a PalettedAlpha lost its
 palette

Its At then returned a nil colour.
---
 indexedalpha.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indexedalpha.go b/indexedalpha.go
index 8de9420..5f4a1a9 100644
--- a/indexedalpha.go
+++ b/indexedalpha.go
@@ -111,7 +111,7 @@ func (p *PalettedAlpha) SubImage(r image.Rectangle) image.Image {
 	r = r.Intersect(p.Rect)
 
 	if r.Empty() {
-		return &PalettedAlpha{}
+		return &PalettedAlpha{Palette: p.Palette}
 	}
 
 	return &PalettedAlpha{
-- 
2.43.0


From 66f61cba5c2ccf5a07cd4ef449cb03c7dbfd4864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:45 +0000
Subject: [PATCH 12/74] fix: HSLA to RGB conversion

The chroma was mirrored for the wrong half of the lightness range and only a
quarter of it was taken off the lightness.
---
 lcolor/hsl.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lcolor/hsl.go b/lcolor/hsl.go
index b623cef..978d35e 100644
--- a/lcolor/hsl.go
+++ b/lcolor/hsl.go
@@ -57,13 +57,13 @@ func (h HSLA) ToNRGBA() color.NRGBA64 {
 	}
 
 	c := uint32(h.L) << 1
-	if c < 0x7fff {
+	if c > 0xffff {
 		c = 0x1fffe - c
 	}
 
 	c = c * uint32(h.S) / 0xffff
 
-	return hcmaToColour(uint32(h.H), c, h.L-uint16(c>>2), h.A)
+	return hcmaToColour(uint32(h.H), c, h.L-uint16(c>>1), h.A)
 }
 
 // HSVA represents the Hue, Saturation, Value and Alpha of a pixel.
-- 
2.43.0


From 72e7a8a38636bc844856621eebfdd2cff4ba6b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:45 +0000
Subject: [PATCH 13/74] fix: GrayAlphaModel premultiplied the gray value

GrayAlpha is not premultiplied, so converting darkened translucent colours,
and did so again each time.
---
 lcolor/gray.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lcolor/gray.go b/lcolor/gray.go
index 71a16dc..ab625be 100644
--- a/lcolor/gray.go
+++ b/lcolor/gray.go
@@ -1,6 +1,10 @@
 package lcolor
 
-import "image/color"
+import (
+	"image/color"
+
+	"vimagination.zapto.org/limage/internal"
+)
 
 // GrayAlpha represents a Gray color with an Alpha channel.
 type GrayAlpha struct {
@@ -30,10 +34,12 @@ func (c GrayAlpha) ToNRGBA() color.NRGBA64 {
 }
 
 func grayAlphaColourModel(c color.Color) color.Color {
-	_, _, _, a := c.RGBA()
+	n := internal.ColourToNRGBA(c)
+	a := n.A
+	n.A = 0xffff
 
 	return GrayAlpha{
-		Y: color.GrayModel.Convert(c).(color.Gray).Y,
+		Y: color.GrayModel.Convert(n).(color.Gray).Y,
 		A: uint8(a >> 8),
 	}
 }
-- 
2.43.0


From cab60604e5b6b87c3767696da7e2ca2b0ce581bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:46 +0000
Subject: [PATCH 14/74] fix: AlphaPalette matched colours darkened by their
 alpha

---
 lcolor/indexed.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/lcolor/indexed.go b/lcolor/indexed.go
index 27afb72..05a94f4 100644
--- a/lcolor/indexed.go
+++ b/lcolor/indexed.go
@@ -1,6 +1,10 @@
 package lcolor
 
-import "image/color"
+import (
+	"image/color"
+
+	"vimagination.zapto.org/limage/internal"
+)
 
 // AlphaPalette is an extension to the normal color.Palette type.
 type AlphaPalette color.Palette
@@ -8,7 +12,7 @@ type AlphaPalette color.Palette
 // Convert converts the given color to the nearest color in the palette, but
 // preserves the alpha channel.
 func (ap AlphaPalette) Convert(c color.Color) color.Color {
-	r, g, b, _ := color.Palette(ap).Convert(c).RGBA()
+	r, g, b, _ := color.Palette(ap).Convert(opaque(c)).RGBA()
 	_, _, _, a := c.RGBA()
 
 	return color.NRGBA64{
@@ -21,7 +25,16 @@ func (ap AlphaPalette) Convert(c color.Color) color.Color {
 
 // Index returns the palette index of the nearest color.
 func (ap AlphaPalette) Index(c color.Color) int {
-	return color.Palette(ap).Index(c)
+	return color.Palette(ap).Index(opaque(c))
+}
+
+// opaque returns the colour without its alpha channel, which the palette has no
+// part in.
+func opaque(c color.Color) color.Color {
+	n := internal.ColourToNRGBA(c)
+	n.A = 0xffff
+
+	return n
 }
 
 // IndexedAlpha is the combination of a palette index and an Alpha channel.
-- 
2.43.0


From 44dcfcfc8d58903753c8fbed8fd13d57cfef09a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:26 +0000
Subject: [PATCH 15/74] fix: a layer's sub-image moved the pixels when its
 origin changed

---
 layer.go | 59 +++++++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 58 insertions(+), 1 deletion(-)

diff --git a/layer.go b/layer.go
index f156769..56bfac8 100644
--- a/layer.go
+++ b/layer.go
@@ -34,7 +34,64 @@ func (l Layer) SubImage(r image.Rectangle) image.Image {
 // SubImageLayer returns an image representing the portion of the image p
 // visible through r. The returned value shares pixels with the original image.
 func (l Layer) SubImageLayer(r image.Rectangle) Layer {
-	l.LayerBounds = r.Intersect(l.LayerBounds)
+	b := r.Intersect(l.LayerBounds)
+	l.Image = shift(l.Image, b.Min.Sub(l.LayerBounds.Min))
+	l.LayerBounds = b
 
 	return l
 }
+
+// shift returns an image with the pixel that is at p in the given image at the
+// origin. The returned image shares pixels with the given one.
+func shift(m image.Image, p image.Point) image.Image {
+	if p == (image.Point{}) || m == nil {
+		return m
+	}
+
+	switch im := m.(type) {
+	case Image:
+		h := make(Image, len(im))
+
+		for n, l := range im {
+			l.LayerBounds = l.LayerBounds.Sub(p)
+			h[n] = l
+		}
+
+		return h
+	case *Image:
+		return shift(*im, p)
+	case Text:
+		im.Image = shift(im.Image, p)
+
+		return im
+	case *Text:
+		return shift(*im, p)
+	case MaskedImage:
+		im.Image = shift(im.Image, p)
+
+		if im.Mask != nil {
+			mask := *im.Mask
+			mask.Rect = mask.Rect.Sub(p)
+			im.Mask = &mask
+		}
+
+		return im
+	case *MaskedImage:
+		return shift(*im, p)
+	}
+
+	return shiftedImage{Image: m, by: p}
+}
+
+type shiftedImage struct {
+	image.Image
+	by image.Point
+}
+
+func (s shiftedImage) Bounds() image.Rectangle {
+	return s.Image.Bounds().Sub(s.by)
+}
+
+func (s shiftedImage) At(x, y int) color.Color {
+	return s.Image.At(x+s.by.X, y+s.by.Y)
+}
-- 
2.43.0


From 41b010719d0cc228fb58989c080f5176c5b11667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:58 +0000
Subject: [PATCH 16/74] fix: ora: write a layer's opacity as such

It was written as a (second) visibility attribute, so that it was lost and, on
hidden layers, made the XML malformed.
---
 ora/encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ora/encode.go b/ora/encode.go
index f1bd534..f6f0c5a 100644
--- a/ora/encode.go
+++ b/ora/encode.go
@@ -195,7 +195,7 @@ func writeStack(e *xml.Encoder, lim limage.Layer, layerNum int) (int, error) {
 
 	if lim.Transparency != 0 {
 		attrs = append(attrs, xml.Attr{
-			Name:  xml.Name{Local: "visibility"},
+			Name:  xml.Name{Local: "opacity"},
 			Value: strconv.FormatFloat(float64(255-lim.Transparency)/255, 'f', -1, 64),
 		})
 	}
-- 
2.43.0


From e343dfbdaae5ca9178852692d7e9098bcfb83e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:58 +0000
Subject: [PATCH 17/74] fix: ora: round the opacity read, rather than
 truncating it

Some opacities changed with each decoding and encoding, and ones out of range
wrapped around.
---
 ora/stack.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ora/stack.go b/ora/stack.go
index ef75333..8ca5fa1 100644
--- a/ora/stack.go
+++ b/ora/stack.go
@@ -4,6 +4,7 @@ import (
 	"encoding/xml"
 	"errors"
 	"image"
+	"math"
 	"strconv"
 
 	"vimagination.zapto.org/limage"
@@ -125,7 +126,7 @@ func processLayerAttrs(l *limage.Layer, s xml.StartElement) (string, error) {
 				return "", err
 			}
 
-			l.Transparency = uint8(255 * (1 - o))
+			l.Transparency = 255 - uint8(math.Round(255*math.Max(0, math.Min(1, o))))
 		case "visibility":
 			l.Invisible = a.Value == "hidden"
 		case "composite-op":
-- 
2.43.0


From 1068a9a0ac182fd9a413dd6123fc193c50065903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:59 +0000
Subject: [PATCH 18/74] fix: ora: write negative layer offsets

---
 ora/encode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ora/encode.go b/ora/encode.go
index f6f0c5a..033ba52 100644
--- a/ora/encode.go
+++ b/ora/encode.go
@@ -172,14 +172,14 @@ func writeStack(e *xml.Encoder, lim limage.Layer, layerNum int) (int, error) {
 		})
 	}
 
-	if b.X > 0 {
+	if b.X != 0 {
 		attrs = append(attrs, xml.Attr{
 			Name:  xml.Name{Local: "x"},
 			Value: strconv.Itoa(b.X),
 		})
 	}
 
-	if b.Y > 0 {
+	if b.Y != 0 {
 		attrs = append(attrs, xml.Attr{
 			Name:  xml.Name{Local: "y"},
 			Value: strconv.Itoa(b.Y),
-- 
2.43.0


From 6b62f41371af215e95fbd056f7b04fe402314631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:59 +0000
Subject: [PATCH 19/74] fix: ora: placement of the layers of groups, and of
 clipped layers

The offset of a group was taken off its layers a second time, the layers of a
group were moved when none was at its corner, and layers sticking out at the
top or left of the canvas were moved into it instead of being clipped.
---
 ora/stack.go | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/ora/stack.go b/ora/stack.go
index 8ca5fa1..49cc6b3 100644
--- a/ora/stack.go
+++ b/ora/stack.go
@@ -94,9 +94,37 @@ func (d decoder) readLayer(s xml.StartElement, offset image.Point) (limage.Layer
 		}
 	}
 
-	l.LayerBounds = l.Image.Bounds().Add(l.LayerBounds.Min).Intersect(image.Rectangle{Max: d.limits.Add(offset)}).Sub(offset)
+	return setBounds(l).SubImageLayer(image.Rectangle{Max: d.limits}.Sub(offset)), nil
+}
+
+// setBounds makes the layer, of which only the position is known, as large as
+// its image.
+func setBounds(l limage.Layer) limage.Layer {
+	b := l.Image.Bounds()
+
+	if g, ok := l.Image.(limage.Image); ok {
+		// The position of a group is the origin of its layers, none of which need
+		// to be there, and some of which may be before it.
+		var before image.Point
+
+		if b.Min.X < 0 {
+			before.X = b.Min.X
+		}
+
+		if b.Min.Y < 0 {
+			before.Y = b.Min.Y
+		}
+
+		for n := range g {
+			g[n].LayerBounds = g[n].LayerBounds.Sub(before)
+		}
+
+		b = image.Rectangle{Min: before, Max: b.Max}
+	}
+
+	l.LayerBounds = b.Add(l.LayerBounds.Min)
 
-	return l, nil
+	return l
 }
 
 func processLayerAttrs(l *limage.Layer, s xml.StartElement) (string, error) {
-- 
2.43.0


From 450c5d16bcc67483b843b3b35a79bb2fe7ad3062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:21 +0000
Subject: [PATCH 20/74] fix: ora: write single images and layers so that they
 can be read back

A single image was written without a stack, which is invalid, and a single
layer lost its attributes.
---
 ora/encode.go | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/ora/encode.go b/ora/encode.go
index 033ba52..777e17e 100644
--- a/ora/encode.go
+++ b/ora/encode.go
@@ -15,10 +15,11 @@ const mimetypeStr = "image/openraster"
 
 // Encode encodes the given image as an ORA file to the given Writer.
 func Encode(w io.Writer, m image.Image) error {
-	lim := toLayer(m)
 	b := m.Bounds()
-	lim.LayerBounds.Max.X = b.Dx()
-	lim.LayerBounds.Max.Y = b.Dy()
+	lim := limage.Layer{
+		LayerBounds: image.Rectangle{Max: b.Size()},
+		Image:       toImage(m),
+	}
 
 	zw := zip.NewWriter(w)
 	defer zw.Close()
@@ -68,19 +69,23 @@ func Encode(w io.Writer, m image.Image) error {
 	return writeImage(e, zw, m, lim)
 }
 
-func toLayer(m image.Image) limage.Layer {
+// toImage returns the image as the layers of the root stack.
+func toImage(m image.Image) limage.Image {
 	switch im := m.(type) {
+	case limage.Image:
+		return im
+	case *limage.Image:
+		return *im
 	case limage.Layer:
-		return limage.Layer{
-			Image: im.Image,
-		}
+		return limage.Image{im}
 	case *limage.Layer:
-		return limage.Layer{
-			Image: im.Image,
-		}
+		return limage.Image{*im}
 	default:
-		return limage.Layer{
-			Image: m,
+		return limage.Image{
+			{
+				LayerBounds: m.Bounds(),
+				Image:       m,
+			},
 		}
 	}
 }
-- 
2.43.0


From 54a689a6a7dfcd92384703515850c6f170bde6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:18 +0000
Subject: [PATCH 21/74] fix: ora: write images whose bounds are not at the
 origin

Their pixels were written outside of the canvas, and so lost.
---
 ora/encode.go | 50 ++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 12 deletions(-)

diff --git a/ora/encode.go b/ora/encode.go
index 777e17e..bb3b686 100644
--- a/ora/encode.go
+++ b/ora/encode.go
@@ -4,6 +4,7 @@ import (
 	"archive/zip"
 	"encoding/xml"
 	"image"
+	"image/color"
 	"image/png"
 	"io"
 	"strconv"
@@ -18,7 +19,7 @@ func Encode(w io.Writer, m image.Image) error {
 	b := m.Bounds()
 	lim := limage.Layer{
 		LayerBounds: image.Rectangle{Max: b.Size()},
-		Image:       toImage(m),
+		Image:       toImage(m, b),
 	}
 
 	zw := zip.NewWriter(w)
@@ -69,25 +70,50 @@ func Encode(w io.Writer, m image.Image) error {
 	return writeImage(e, zw, m, lim)
 }
 
-// toImage returns the image as the layers of the root stack.
-func toImage(m image.Image) limage.Image {
+// toImage returns the image, with the given bounds, as the layers of the root
+// stack, whose corner is the origin.
+func toImage(m image.Image, b image.Rectangle) limage.Image {
+	var layers limage.Image
+
 	switch im := m.(type) {
 	case limage.Image:
-		return im
+		layers = append(layers, im...)
 	case *limage.Image:
-		return *im
+		layers = append(layers, *im...)
 	case limage.Layer:
-		return limage.Image{im}
+		layers = append(layers, im)
 	case *limage.Layer:
-		return limage.Image{*im}
+		layers = append(layers, *im)
 	default:
-		return limage.Image{
-			{
-				LayerBounds: m.Bounds(),
-				Image:       m,
-			},
+		if b.Min != (image.Point{}) {
+			m = window{Image: m, area: b}
 		}
+
+		layers = append(layers, limage.Layer{
+			LayerBounds: b,
+			Image:       m,
+		})
+	}
+
+	for n := range layers {
+		layers[n].LayerBounds = layers[n].LayerBounds.Sub(b.Min)
 	}
+
+	return layers
+}
+
+// window shows an area of an image, the corner of which is at the origin.
+type window struct {
+	image.Image
+	area image.Rectangle
+}
+
+func (w window) Bounds() image.Rectangle {
+	return image.Rectangle{Max: w.area.Size()}
+}
+
+func (w window) At(x, y int) color.Color {
+	return w.Image.At(w.area.Min.X+x, w.area.Min.Y+y)
 }
 
 func writeImage(e *xml.Encoder, zw *zip.Writer, m image.Image, lim limage.Layer) error {
-- 
2.43.0


From fa038df5b59bfdccd30483e815acbdbe5f84c0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:19 +0000
Subject: [PATCH 22/74] fix: ora: write just the part of a layer's image that
 the layer shows

---
 ora/encode.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ora/encode.go b/ora/encode.go
index bb3b686..218cc20 100644
--- a/ora/encode.go
+++ b/ora/encode.go
@@ -170,7 +170,13 @@ func writeLayers(zw *zip.Writer, lim limage.Layer, layerNum int) (int, error) {
 			return 0, err
 		}
 
-		err = png.Encode(f, lim.Image)
+		m := lim.Image
+
+		if shown := (image.Rectangle{Max: lim.LayerBounds.Size()}); m.Bounds() != shown {
+			m = window{Image: m, area: shown}
+		}
+
+		err = png.Encode(f, m)
 		if err != nil {
 			return 0, err
 		}
-- 
2.43.0


From 4b07ae9927d3e2c46df5d29d2484cf382e833a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:19 +0000
Subject: [PATCH 23/74] fix: ora: report the failure to write the end of the
 archive

---
 ora/encode.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ora/encode.go b/ora/encode.go
index 218cc20..1220c02 100644
--- a/ora/encode.go
+++ b/ora/encode.go
@@ -23,7 +23,6 @@ func Encode(w io.Writer, m image.Image) error {
 	}
 
 	zw := zip.NewWriter(w)
-	defer zw.Close()
 
 	fw, err := zw.CreateHeader(&zip.FileHeader{
 		Name:   "mimetype",
@@ -67,7 +66,11 @@ func Encode(w io.Writer, m image.Image) error {
 		return err
 	}
 
-	return writeImage(e, zw, m, lim)
+	if err = writeImage(e, zw, m, lim); err != nil {
+		return err
+	}
+
+	return zw.Close()
 }
 
 // toImage returns the image, with the given bounds, as the layers of the root
-- 
2.43.0


From c3bfb9a5f654f2aca082eeb4a7347cad99f915ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:19 +0000
Subject: [PATCH 24/74] fix: ora: thumbnails of large images

They showed only the pixels of the diagonal, and of the first pixels of the image
only, and those of very thin images had no pixels and could not be written.
---
 ora/thumbnail.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/ora/thumbnail.go b/ora/thumbnail.go
index cf12819..11b5777 100644
--- a/ora/thumbnail.go
+++ b/ora/thumbnail.go
@@ -12,14 +12,22 @@ type thumbnail struct {
 
 func (t thumbnail) Bounds() image.Rectangle {
 	b := t.Image.Bounds()
-	b.Min.X = int(float64(b.Min.X) / t.scale)
-	b.Min.Y = int(float64(b.Min.Y) / t.scale)
-	b.Max.X = int(float64(b.Max.X) / t.scale)
-	b.Max.Y = int(float64(b.Max.Y) / t.scale)
+	w := int(float64(b.Dx()) / t.scale)
+	h := int(float64(b.Dy()) / t.scale)
 
-	return b
+	if w < 1 {
+		w = 1
+	}
+
+	if h < 1 {
+		h = 1
+	}
+
+	return image.Rect(0, 0, w, h)
 }
 
 func (t thumbnail) At(x, y int) color.Color {
-	return t.Image.At(int(float64(x)/t.scale), int(float64(x)/t.scale))
+	b := t.Image.Bounds()
+
+	return t.Image.At(b.Min.X+int(float64(x)*t.scale), b.Min.Y+int(float64(y)*t.scale))
 }
-- 
2.43.0


From 77b661b7d90717bc2fe0a72b33b3f239be1afdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:45 +0000
Subject: [PATCH 25/74] fix: ora: limit the nesting of stacks

A small file of deeply nested stacks overflowed the goroutine's stack, which
ends the whole program.
---
 ora/decode.go | 4 ++++
 ora/stack.go  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/ora/decode.go b/ora/decode.go
index 0d2c16f..05a2507 100644
--- a/ora/decode.go
+++ b/ora/decode.go
@@ -12,10 +12,14 @@ import (
 	"vimagination.zapto.org/limage"
 )
 
+// maxDepth is the deepest nesting of stacks that is read.
+const maxDepth = 10000
+
 type decoder struct {
 	zr     *zip.Reader
 	x      *xml.Decoder
 	limits image.Point
+	depth  int
 }
 
 func (d *decoder) getStack() (stack *zip.File, err error) {
diff --git a/ora/stack.go b/ora/stack.go
index 49cc6b3..16df70a 100644
--- a/ora/stack.go
+++ b/ora/stack.go
@@ -62,6 +62,10 @@ func (d decoder) readLayer(s xml.StartElement, offset image.Point) (limage.Layer
 	if s.Name.Local == "stack" {
 		var err error
 
+		if d.depth++; d.depth > maxDepth {
+			return l, ErrInvalidStack
+		}
+
 		l.Image, err = d.readStack(offset.Add(l.LayerBounds.Min))
 		if err != nil {
 			return l, err
-- 
2.43.0


From 0217692b3ab75ef18c00f50ceeea039341a914b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:46 +0000
Subject: [PATCH 26/74] fix: ora: write masked and layered images with a gray
 color model in full

The merged image lost all colour and transparency when the first layer was gray,
as did masked gray layers.
---
 ora/encode.go | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/ora/encode.go b/ora/encode.go
index 1220c02..ae334a2 100644
--- a/ora/encode.go
+++ b/ora/encode.go
@@ -134,7 +134,7 @@ func writeImage(e *xml.Encoder, zw *zip.Writer, m image.Image, lim limage.Layer)
 		return err
 	} else if fw, err = zw.Create("mergedimage.png"); err != nil {
 		return err
-	} else if err = png.Encode(fw, m); err != nil {
+	} else if err = encodePNG(fw, m); err != nil {
 		return err
 	} else if fw, err = zw.Create("Thumbnails/thumbnail.png"); err != nil {
 		return err
@@ -150,7 +150,33 @@ func writeImage(e *xml.Encoder, zw *zip.Writer, m image.Image, lim limage.Layer)
 		m = thumbnail{Image: m, scale: scale}
 	}
 
-	return png.Encode(fw, m)
+	return encodePNG(fw, m)
+}
+
+// encodePNG writes the image with its alpha channel, which the gray color models
+// do not have, but masked or composed images that use these models do.
+func encodePNG(w io.Writer, m image.Image) error {
+	switch m.(type) {
+	case *image.Gray, *image.Gray16:
+	default:
+		switch m.ColorModel() {
+		case color.GrayModel:
+			m = modelled{Image: m, model: color.NRGBAModel}
+		case color.Gray16Model:
+			m = modelled{Image: m, model: color.NRGBA64Model}
+		}
+	}
+
+	return png.Encode(w, m)
+}
+
+type modelled struct {
+	image.Image
+	model color.Model
+}
+
+func (m modelled) ColorModel() color.Model {
+	return m.model
 }
 
 func writeLayers(zw *zip.Writer, lim limage.Layer, layerNum int) (int, error) {
@@ -179,7 +205,7 @@ func writeLayers(zw *zip.Writer, lim limage.Layer, layerNum int) (int, error) {
 			m = window{Image: m, area: shown}
 		}
 
-		err = png.Encode(f, m)
+		err = encodePNG(f, m)
 		if err != nil {
 			return 0, err
 		}
-- 
2.43.0


From 51736044c567861c276465d6858df02946aef078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:41 +0000
Subject: [PATCH 27/74] fix: ora: attributes of other namespaces were taken for
 those of OpenRaster

---
 ora/decode.go | 4 ++++
 ora/stack.go  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/ora/decode.go b/ora/decode.go
index 05a2507..7be0a5e 100644
--- a/ora/decode.go
+++ b/ora/decode.go
@@ -79,6 +79,10 @@ func (d *decoder) getDimensions() error {
 				var w, h bool
 
 				for _, attr := range se.Attr {
+					if attr.Name.Space != "" { // not one of OpenRaster's.
+						continue
+					}
+
 					switch attr.Name.Local {
 					case "w":
 						d.limits.X, err = strconv.Atoi(attr.Value)
diff --git a/ora/stack.go b/ora/stack.go
index 16df70a..8edb91a 100644
--- a/ora/stack.go
+++ b/ora/stack.go
@@ -135,6 +135,10 @@ func processLayerAttrs(l *limage.Layer, s xml.StartElement) (string, error) {
 	var source string
 
 	for _, a := range s.Attr {
+		if a.Name.Space != "" { // not one of OpenRaster's.
+			continue
+		}
+
 		switch a.Name.Local {
 		case "name":
 			l.Name = a.Value
-- 
2.43.0


From 1e771efd3ecb6673a5603c9a522d113a3a1928a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:31 +0000
Subject: [PATCH 28/74] fix: random access over seekable readers: short reads,
 failed seeks and the start position

---
 internal/bufioToReader.go | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/internal/bufioToReader.go b/internal/bufioToReader.go
index 0a64028..a96b76c 100644
--- a/internal/bufioToReader.go
+++ b/internal/bufioToReader.go
@@ -2,6 +2,7 @@ package internal // import "vimagination.zapto.org/limage/internal"
 
 import (
 	"bufio"
+	"errors"
 	"io"
 	"sync"
 	"unsafe"
@@ -20,27 +21,20 @@ type bufioReader struct {
 type readerAt struct {
 	readMutex  sync.Mutex
 	ReadSeeker io.ReadSeeker
-	pos        int64
 }
 
 func (r *readerAt) ReadAt(p []byte, offset int64) (int, error) {
 	r.readMutex.Lock()
+	defer r.readMutex.Unlock()
 
-	var (
-		n   int
-		err error
-	)
-
-	if offset != r.pos {
-		r.pos, err = r.ReadSeeker.Seek(offset, io.SeekStart)
-		if err != nil {
-			return 0, err
-		}
+	if _, err := r.ReadSeeker.Seek(offset, io.SeekStart); err != nil {
+		return 0, err
 	}
 
-	n, err = r.ReadSeeker.Read(p)
-	r.pos += int64(n)
-	r.readMutex.Unlock()
+	n, err := io.ReadFull(r.ReadSeeker, p)
+	if errors.Is(err, io.ErrUnexpectedEOF) {
+		err = io.EOF
+	}
 
 	return n, err
 }
@@ -51,8 +45,6 @@ func bufioToReader(b *bufio.Reader) io.ReaderAt {
 	if ra, ok := br.rd.(io.ReaderAt); ok {
 		return ra
 	} else if rs, ok := br.rd.(io.ReadSeeker); ok {
-		rs.Seek(0, 0)
-
 		return &readerAt{
 			ReadSeeker: rs,
 		}
-- 
2.43.0


From 674c0e35517cba8d2a0d4b2a67e1b32689750899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:55 +0000
Subject: [PATCH 29/74] fix: random access through several buffers

---
 internal/bufioToReader.go | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/internal/bufioToReader.go b/internal/bufioToReader.go
index a96b76c..3fe15da 100644
--- a/internal/bufioToReader.go
+++ b/internal/bufioToReader.go
@@ -40,17 +40,7 @@ func (r *readerAt) ReadAt(p []byte, offset int64) (int, error) {
 }
 
 func bufioToReader(b *bufio.Reader) io.ReaderAt {
-	br := (*bufioReader)(unsafe.Pointer(b))
-
-	if ra, ok := br.rd.(io.ReaderAt); ok {
-		return ra
-	} else if rs, ok := br.rd.(io.ReadSeeker); ok {
-		return &readerAt{
-			ReadSeeker: rs,
-		}
-	}
-
-	return nil
+	return GetReaderAt((*bufioReader)(unsafe.Pointer(b)).rd)
 }
 
 // GetReaderAt tries to make a io.ReaderAt from an io.Reader.
-- 
2.43.0


From a49889412c16fc7a0ea63d957f3f0dac31f72aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:55 +0000
Subject: [PATCH 30/74] fix: xcf: files larger than 16 MiB could not be read

---
 xcf/reader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xcf/reader.go b/xcf/reader.go
index 7926f6f..3d1a281 100644
--- a/xcf/reader.go
+++ b/xcf/reader.go
@@ -3,6 +3,7 @@ package xcf
 import (
 	"errors"
 	"io"
+	"math"
 	"unicode/utf8"
 
 	"vimagination.zapto.org/byteio"
@@ -15,7 +16,7 @@ type reader struct {
 
 func newReader(r io.ReaderAt) reader {
 	nr := reader{
-		rs: io.NewSectionReader(r, 0, maxString),
+		rs: io.NewSectionReader(r, 0, math.MaxInt64),
 	}
 
 	nr.StickyBigEndianReader = &byteio.StickyBigEndianReader{Reader: nr.rs}
-- 
2.43.0


From c3ec9094d7bbaadf40c312983ceb40f64ea662ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:56 +0000
Subject: [PATCH 31/74] fix: xcf: report invalid offsets

---
 xcf/reader.go | 10 +++++++++-
 xcf/skip.go   |  4 +++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/xcf/reader.go b/xcf/reader.go
index 3d1a281..fc3e30b 100644
--- a/xcf/reader.go
+++ b/xcf/reader.go
@@ -54,7 +54,15 @@ func (r *reader) ReadString() string {
 }
 
 func (r *reader) Goto(n uint64) {
-	r.rs.Seek(int64(n), io.SeekStart)
+	if n > math.MaxInt64 {
+		r.SetError(ErrInvalidSeek)
+
+		return
+	}
+
+	if _, err := r.rs.Seek(int64(n), io.SeekStart); err != nil {
+		r.SetError(err)
+	}
 }
 
 func (r *reader) SetError(err error) {
diff --git a/xcf/skip.go b/xcf/skip.go
index 078fca3..45ff425 100644
--- a/xcf/skip.go
+++ b/xcf/skip.go
@@ -3,7 +3,9 @@ package xcf
 import "io"
 
 func (r *reader) Skip(n uint32) {
-	r.rs.Seek(int64(n), io.SeekCurrent)
+	if _, err := r.rs.Seek(int64(n), io.SeekCurrent); err != nil {
+		r.SetError(err)
+	}
 }
 
 func (r *reader) SkipBoolProperty() {
-- 
2.43.0


From 3991c48ac70d1249f51fadc3c30a054f39d5e71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:57 +0000
Subject: [PATCH 32/74] fix: xcf: memory for strings and parasites that are not
 in the file

---
 xcf/decoder.go   |  2 +-
 xcf/parasites.go |  8 ++------
 xcf/reader.go    | 53 +++++++++++++++++++++++++++++++++++++++++++-----
 3 files changed, 51 insertions(+), 12 deletions(-)

diff --git a/xcf/decoder.go b/xcf/decoder.go
index 7b60fbc..c5163b1 100644
--- a/xcf/decoder.go
+++ b/xcf/decoder.go
@@ -174,7 +174,7 @@ func decodeImage(r io.ReaderAt, decompress bool) (limage.Image, error) {
 func readHeader(dr reader) (uint32, error) {
 	var header [14]byte
 
-	dr.Read(header[:])
+	dr.readFull(header[:])
 
 	if dr.Err != nil {
 		return 0, dr.Err // wrap?
diff --git a/xcf/parasites.go b/xcf/parasites.go
index d36bdc6..7a964be 100644
--- a/xcf/parasites.go
+++ b/xcf/parasites.go
@@ -54,9 +54,7 @@ func (d *reader) ReadParasites(l uint32) parasites {
 		}
 
 		l -= read
-		p.data = make([]byte, pplength)
-
-		d.Read(p.data)
+		p.data = d.ReadBytes(pplength)
 
 		ps = append(ps, p)
 	}
@@ -71,9 +69,7 @@ func (d *reader) ReadParasite() parasite {
 	p.flags = d.ReadUint32()
 	pplength := d.ReadUint32()
 
-	p.data = make([]byte, pplength)
-
-	d.Read(p.data)
+	p.data = d.ReadBytes(pplength)
 
 	return p
 }
diff --git a/xcf/reader.go b/xcf/reader.go
index fc3e30b..87d10cb 100644
--- a/xcf/reader.go
+++ b/xcf/reader.go
@@ -36,11 +36,8 @@ func (r *reader) ReadString() string {
 		return ""
 	}
 
-	b := make([]byte, length)
-
-	if _, err := io.ReadFull(r, b); err != nil {
-		r.Err = err
-
+	b := r.ReadBytes(length)
+	if r.Err != nil {
 		return ""
 	}
 
@@ -53,6 +50,52 @@ func (r *reader) ReadString() string {
 	return string(b[:length-1])
 }
 
+// readFull fills the buffer, or sets the error.
+func (r *reader) readFull(p []byte) {
+	if r.Err != nil {
+		return
+	}
+
+	if _, err := io.ReadFull(r.rs, p); err != nil {
+		r.SetError(noEOF(err))
+	}
+}
+
+// ReadBytes reads the given number of bytes, using no more memory than a
+// multiple of what there is to read.
+func (r *reader) ReadBytes(length uint32) []byte {
+	const chunk = 1 << 12
+
+	var b []byte
+
+	for uint32(len(b)) < length && r.Err == nil {
+		n := uint32(len(b))
+		if n < chunk {
+			n = chunk
+		}
+
+		if left := length - uint32(len(b)); n > left {
+			n = left
+		}
+
+		b = append(b, make([]byte, n)...)
+
+		r.readFull(b[uint32(len(b))-n:])
+	}
+
+	return b
+}
+
+// noEOF makes sure that reading part of the data is not taken for having read
+// all of it.
+func noEOF(err error) error {
+	if errors.Is(err, io.EOF) {
+		return io.ErrUnexpectedEOF
+	}
+
+	return err
+}
+
 func (r *reader) Goto(n uint64) {
 	if n > math.MaxInt64 {
 		r.SetError(ErrInvalidSeek)
-- 
2.43.0


From 8c7c3b982b94838dcd51c863f3e10043065f48e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:25 +0000
Subject: [PATCH 33/74] fix: xcf: reading of parasites did not end for some
 invalid lengths

---
 xcf/parasites.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/xcf/parasites.go b/xcf/parasites.go
index 7a964be..bb560e5 100644
--- a/xcf/parasites.go
+++ b/xcf/parasites.go
@@ -36,24 +36,24 @@ func (p parasites) Get(name string) *parasite {
 func (d *reader) ReadParasites(l uint32) parasites {
 	ps := make(parasites, 0, 32)
 
-	for l > 0 {
+	for l > 0 && d.Err == nil {
 		var p parasite
 
 		p.name = d.ReadString()
 		p.flags = d.ReadUint32()
 		pplength := d.ReadUint32()
-		read := 4 + uint32(len(p.name)) + 1 // length (uint32) + string([]byte) + \0 (byte)
+		read := 4 + uint64(len(p.name)) + 1 // length (uint32) + string([]byte) + \0 (byte)
 		read += 4                           // flags
 		read += 4                           // pplength
-		read += pplength                    // len(data)
+		read += uint64(pplength)            // len(data)
 
-		if read > l {
+		if read > uint64(l) {
 			d.SetError(ErrInvalidParasites)
 
 			return nil
 		}
 
-		l -= read
+		l -= uint32(read)
 		p.data = d.ReadBytes(pplength)
 
 		ps = append(ps, p)
-- 
2.43.0


From cae552756a386beb6426e3e674febe35c1e6ebeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:25 +0000
Subject: [PATCH 34/74] fix: xcf: DecodeConfig did not read the precision field
 of versions 4 to 10

---
 xcf/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcf/decoder.go b/xcf/decoder.go
index c5163b1..63f6e5a 100644
--- a/xcf/decoder.go
+++ b/xcf/decoder.go
@@ -86,7 +86,7 @@ func DecodeConfig(r io.ReaderAt) (image.Config, error) {
 	c.Height = int(dr.ReadUint32())
 	baseType := dr.ReadUint32()
 
-	if mode == 2 {
+	if mode > 0 {
 		dr.ReadUint32()
 	}
 
-- 
2.43.0


From f354e7dde1f786844b2a391e0bdbf25bf6e04d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:26 +0000
Subject: [PATCH 35/74] fix: xcf: panic on an unknown base type

---
 xcf/decoder.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xcf/decoder.go b/xcf/decoder.go
index 63f6e5a..34c895d 100644
--- a/xcf/decoder.go
+++ b/xcf/decoder.go
@@ -102,6 +102,8 @@ func DecodeConfig(r io.ReaderAt) (image.Config, error) {
 		}
 
 		c.ColorModel = palette
+	default:
+		dr.SetError(ErrInvalidBaseType)
 	}
 
 	return c, dr.Err
@@ -138,6 +140,10 @@ func decodeImage(r io.ReaderAt, decompress bool) (limage.Image, error) {
 	bounds := image.Rect(0, 0, width, height)
 	baseType := dr.ReadUint32()
 
+	if baseType > baseIndexed {
+		dr.SetError(ErrInvalidBaseType)
+	}
+
 	var precision uint32
 
 	if mode > 0 {
@@ -441,6 +447,7 @@ var (
 	ErrInvalidFileTypeID   = errors.New("invalid file type identification")
 	ErrUnsupportedVersion  = errors.New("unsupported file version")
 	ErrInvalidHeader       = errors.New("invalid header")
+	ErrInvalidBaseType     = errors.New("invalid base type")
 	ErrInvalidProperties   = errors.New("invalid property list")
 	ErrInvalidOpacity      = errors.New("opacity not in valid range")
 	ErrInvalidGuideLength  = errors.New("invalid guide length")
-- 
2.43.0


From 3fedb105cdb17023f9bf00126bea2cd49189503c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:27 +0000
Subject: [PATCH 36/74] fix: xcf: color maps of images that are not indexed, or
 of an impossible size

---
 xcf/decoder.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/xcf/decoder.go b/xcf/decoder.go
index 34c895d..de894d0 100644
--- a/xcf/decoder.go
+++ b/xcf/decoder.go
@@ -59,6 +59,8 @@ const (
 	// baseRGB     = 0
 	// baseGrey    = 1
 	baseIndexed = 2
+
+	maxPalette = 256
 )
 
 type decoder struct {
@@ -248,9 +250,16 @@ PropertyLoop:
 		case propColorMap:
 			if baseType != baseIndexed {
 				dr.Skip(plength) // skip
+
+				continue
+			}
+
+			n := dr.ReadUint32()
+			if n > maxPalette {
+				return nil, 0, ErrInvalidPalette
 			}
 
-			palette = make(lcolor.AlphaPalette, dr.ReadUint32())
+			palette = make(lcolor.AlphaPalette, n)
 
 			for n := range palette {
 				palette[n] = lcolor.RGB{
@@ -448,6 +457,7 @@ var (
 	ErrUnsupportedVersion  = errors.New("unsupported file version")
 	ErrInvalidHeader       = errors.New("invalid header")
 	ErrInvalidBaseType     = errors.New("invalid base type")
+	ErrInvalidPalette      = errors.New("invalid palette")
 	ErrInvalidProperties   = errors.New("invalid property list")
 	ErrInvalidOpacity      = errors.New("opacity not in valid range")
 	ErrInvalidGuideLength  = errors.New("invalid guide length")
-- 
2.43.0


From 70f8c9ace18e598629ca8540cc7ca4a9a9c7804a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:28 +0000
Subject: [PATCH 37/74] fix: xcf: skip the image properties that are not used
 by the lengths they give

---
 xcf/decoder.go | 55 --------------------------------------------------
 1 file changed, 55 deletions(-)

diff --git a/xcf/decoder.go b/xcf/decoder.go
index de894d0..e6cec0c 100644
--- a/xcf/decoder.go
+++ b/xcf/decoder.go
@@ -230,22 +230,6 @@ PropertyLoop:
 
 			break PropertyLoop
 
-		// general properties
-		case propLinked:
-			dr.ReadBoolProperty()
-		case propLockContent:
-			dr.ReadBoolProperty()
-		case propOpacity:
-			if o := dr.ReadUint32(); o > 255 {
-				return nil, 0, ErrInvalidOpacity
-			}
-		case propParasites:
-			dr.ReadParasites(plength)
-		case propTattoo:
-			dr.ReadUint32()
-		case propVisible:
-			dr.ReadBoolProperty()
-
 		// image properties
 		case propColorMap:
 			if baseType != baseIndexed {
@@ -272,45 +256,6 @@ PropertyLoop:
 			if compression = dr.ReadUint8(); compression > 1 {
 				return nil, 0, ErrUnknownCompression
 			}
-		case propGuides:
-			ng := plength / 5
-
-			if ng*5 != plength {
-				return nil, 0, ErrInvalidGuideLength
-			}
-
-			for n := uint32(0); n < ng; n++ {
-				dr.SkipUint32()
-				dr.SkipBoolProperty()
-			}
-		case propPaths:
-			dr.SkipPaths()
-		case propResolution:
-			dr.SkipFloat32() // x
-			dr.SkipFloat32() // y
-		case propSamplePoints:
-			if plength&1 == 1 {
-				return nil, 0, ErrInvalidSampleLength
-			}
-
-			for i := uint32(0); i < plength>>1; i++ {
-				dr.SkipUint32()
-				dr.SkipUint32()
-			}
-		case propUnit:
-			if dr.ReadUint32() > 4 {
-				return nil, 0, ErrInvalidUnit
-			}
-		case propUserUnit:
-			dr.SkipFloat32() // factor
-			dr.SkipUint32()  // number of decimal digits
-			dr.SkipString()  // id
-			dr.SkipString()  // symbol
-			dr.SkipString()  // abbr.
-			dr.SkipString()  // singular name
-			dr.SkipString()  // plural name
-		case propVectors:
-			dr.SkipVectors()
 		default:
 			dr.Skip(plength)
 		}
-- 
2.43.0


From c95bf5b9dbf55a0aab82d443e9930d208f192d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:29 +0000
Subject: [PATCH 38/74] fix: xcf: memory for tiles that are not in the file

---
 xcf/image_decode.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/xcf/image_decode.go b/xcf/image_decode.go
index 9bb1b4c..bb88238 100644
--- a/xcf/image_decode.go
+++ b/xcf/image_decode.go
@@ -4,7 +4,6 @@ import (
 	"image"
 	"image/color"
 	"io"
-	"math"
 
 	"vimagination.zapto.org/limage"
 	"vimagination.zapto.org/limage/lcolor"
@@ -38,6 +37,9 @@ func (d *decoder) ReadImage(width, height, mode uint32) image.Image {
 
 	if d.ReadUint32() != 0 {
 		d.SetError(ErrInconsistantData)
+	}
+
+	if d.Err != nil {
 		return nil
 	}
 
@@ -90,16 +92,10 @@ func (d *decoder) readLayerPointer() uint64 {
 }
 
 func (d *decoder) readTiles(width, height uint32) []uint64 {
-	tiles := make([]uint64, int(math.Ceil(float64(width)/64)*math.Ceil(float64(height)/64)))
+	var tiles []uint64
 
-	if d.mode < 2 {
-		for i := range tiles {
-			tiles[i] = uint64(d.ReadUint32())
-		}
-	} else {
-		for i := range tiles {
-			tiles[i] = d.ReadUint64()
-		}
+	for n := ((uint64(width) + 63) / 64) * ((uint64(height) + 63) / 64); n > 0 && d.Err == nil; n-- {
+		tiles = append(tiles, d.readLayerPointer())
 	}
 
 	return tiles
-- 
2.43.0


From 1e622ac11a9cdfeaeddaf54465cf68a878b65e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:30 +0000
Subject: [PATCH 39/74] fix: xcf: images of no width and great height never
 ended

---
 xcf/image_decode.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xcf/image_decode.go b/xcf/image_decode.go
index bb88238..1189742 100644
--- a/xcf/image_decode.go
+++ b/xcf/image_decode.go
@@ -149,8 +149,8 @@ func (d *decoder) readAndDecompressImage(mode uint32, r image.Rectangle, bpp, wi
 	pixel := make([]byte, bpp)
 	channels := make([][]byte, bpp)
 
-	for y := uint32(0); y < height; y += 64 {
-		for x := uint32(0); x < width; x += 64 {
+	for y := uint32(0); len(tiles) > 0; y += 64 {
+		for x := uint32(0); x < width && len(tiles) > 0; x += 64 {
 			d.Goto(tiles[0])
 			tiles = tiles[1:]
 
@@ -198,8 +198,8 @@ func (d *decoder) readCompressedImage(mode uint32, r image.Rectangle, bpp, width
 
 	buf := make(memio.Buffer, 0, 64*64*4)
 
-	for y := uint32(0); y < height; y += 64 {
-		for x := uint32(0); x < width; x += 64 {
+	for y := uint32(0); len(tiles) > 0; y += 64 {
+		for x := uint32(0); x < width && len(tiles) > 0; x += 64 {
 			d.Goto(tiles[0])
 
 			tiles = tiles[1:]
-- 
2.43.0


From c8e1bf5dbf99a72c175decd8214541fa6ba21741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:37 +0000
Subject: [PATCH 40/74] fix: xcf: order of the bytes of tiles that are not
 compressed

---
 xcf/image_decode.go | 41 ++++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/xcf/image_decode.go b/xcf/image_decode.go
index 1189742..54157bc 100644
--- a/xcf/image_decode.go
+++ b/xcf/image_decode.go
@@ -3,7 +3,6 @@ package xcf
 import (
 	"image"
 	"image/color"
-	"io"
 
 	"vimagination.zapto.org/limage"
 	"vimagination.zapto.org/limage/lcolor"
@@ -138,16 +137,9 @@ func (d *decoder) readAndDecompressImage(mode uint32, r image.Rectangle, bpp, wi
 		imReader = palettedAlphaReader{in}
 	}
 
-	var cr io.Reader
-
-	if d.compression == 0 { // no compression
-		cr = &d.reader
-	} else { // rle
-		cr = &rle{Reader: d.reader.StickyBigEndianReader}
-	}
-
 	pixel := make([]byte, bpp)
 	channels := make([][]byte, bpp)
+	step := 1
 
 	for y := uint32(0); len(tiles) > 0; y += 64 {
 		for x := uint32(0); x < width && len(tiles) > 0; x += 64 {
@@ -165,21 +157,40 @@ func (d *decoder) readAndDecompressImage(mode uint32, r image.Rectangle, bpp, wi
 			}
 
 			n := w * h
-			_, err := cr.Read(pixBuffer[:n*bpp])
 
-			d.SetError(err)
+			if d.compression == 0 { // no compression, the channels of each pixel are together
+				d.readFull(pixBuffer[:n*bpp])
 
-			for i := uint32(0); i < bpp; i++ {
-				channels[i] = pixBuffer[n*i : n*(i+1)]
+				step = int(bpp)
+
+				for i := uint32(0); i < bpp; i++ {
+					channels[i] = pixBuffer[i : n*bpp]
+				}
+			} else { // rle, one channel after another
+				cr := rle{Reader: d.reader.StickyBigEndianReader}
+				_, err := cr.Read(pixBuffer[:n*bpp])
+
+				d.SetError(err)
+
+				for i := uint32(0); i < bpp; i++ {
+					channels[i] = pixBuffer[n*i : n*(i+1)]
+				}
+			}
+
+			if d.Err != nil {
+				return nil
 			}
 
+			p := 0
+
 			for j := uint32(0); j < h; j++ {
 				for i := uint32(0); i < w; i++ {
 					for k := uint32(0); k < bpp; k++ {
-						pixel[k] = channels[k][0]
-						channels[k] = channels[k][1:]
+						pixel[k] = channels[k][p]
 					}
 
+					p += step
+
 					imReader.ReadColour(int(x+i), int(y+j), pixel)
 				}
 			}
-- 
2.43.0


From 2a60302249ed13dab01747ff6f19f927944881ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:38 +0000
Subject: [PATCH 41/74] fix: xcf: compressed tiles: runs across channels,
 incomplete and endless data

---
 xcf/image_decode.go | 16 ++++++++-----
 xcf/rle.go          | 55 ++++++++++++++-------------------------------
 2 files changed, 27 insertions(+), 44 deletions(-)

diff --git a/xcf/image_decode.go b/xcf/image_decode.go
index 54157bc..aa71732 100644
--- a/xcf/image_decode.go
+++ b/xcf/image_decode.go
@@ -3,6 +3,7 @@ package xcf
 import (
 	"image"
 	"image/color"
+	"io"
 
 	"vimagination.zapto.org/limage"
 	"vimagination.zapto.org/limage/lcolor"
@@ -167,13 +168,10 @@ func (d *decoder) readAndDecompressImage(mode uint32, r image.Rectangle, bpp, wi
 					channels[i] = pixBuffer[i : n*bpp]
 				}
 			} else { // rle, one channel after another
-				cr := rle{Reader: d.reader.StickyBigEndianReader}
-				_, err := cr.Read(pixBuffer[:n*bpp])
-
-				d.SetError(err)
-
 				for i := uint32(0); i < bpp; i++ {
 					channels[i] = pixBuffer[n*i : n*(i+1)]
+
+					d.readRLE(channels[i], d.rs)
 				}
 			}
 
@@ -209,6 +207,8 @@ func (d *decoder) readCompressedImage(mode uint32, r image.Rectangle, bpp, width
 
 	buf := make(memio.Buffer, 0, 64*64*4)
 
+	var pixBuffer [64 * 64]byte
+
 	for y := uint32(0); len(tiles) > 0; y += 64 {
 		for x := uint32(0); x < width && len(tiles) > 0; x += 64 {
 			d.Goto(tiles[0])
@@ -229,7 +229,11 @@ func (d *decoder) readCompressedImage(mode uint32, r image.Rectangle, bpp, width
 			ts := make([][]byte, 0, bpp)
 
 			for i := uint32(0); i < bpp; i++ {
-				d.SetError(d.readRLE(int(n), &buf))
+				d.readRLE(pixBuffer[:n], io.TeeReader(d.rs, &buf))
+
+				if d.Err != nil {
+					return nil
+				}
 
 				b := make([]byte, len(buf))
 
diff --git a/xcf/rle.go b/xcf/rle.go
index 8e5ee55..deac913 100644
--- a/xcf/rle.go
+++ b/xcf/rle.go
@@ -5,7 +5,6 @@ import (
 	"io"
 
 	"vimagination.zapto.org/byteio"
-	"vimagination.zapto.org/memio"
 )
 
 type rle struct {
@@ -62,7 +61,11 @@ func (r *rle) Read(p []byte) (int, error) {
 				p[i] = r.data
 			}
 		} else {
-			r.Reader.Read(p[:c])
+			if _, err := io.ReadFull(r.Reader.Reader, p[:c]); err != nil {
+				r.Reader.Err = noEOF(err)
+
+				return n, r.Reader.Err
+			}
 		}
 
 		r.count -= uint16(c)
@@ -152,46 +155,22 @@ func (w *writer) WriteRLEData(data []byte, run int, last byte) {
 	}
 }
 
-func (d *decoder) readRLE(count int, buf *memio.Buffer) error {
-	bw := byteio.BigEndianWriter{Writer: buf}
-
-	for count > 0 {
-		c := d.reader.ReadUint8()
-
-		bw.WriteUint8(c)
-
-		if c < 127 {
-			count -= int(c) + 1
-
-			bw.WriteUint8(d.ReadUint8())
-		} else if c == 127 {
-			p := d.ReadUint16()
-
-			bw.WriteUint16(p)
-
-			count -= int(p)
+// maxRLE is more than the longest data for one channel of a tile, in which each
+// byte is a run of its own.
+const maxRLE = 64 * 64 * 5
 
-			bw.WriteUint8(d.ReadUint8())
-		} else if c == 128 {
-			p := d.ReadUint16()
-
-			bw.WriteUint16(p)
-
-			count -= int(p)
-
-			io.CopyN(buf, d, int64(p))
-		} else {
-			count -= 256 - int(c)
-
-			io.CopyN(buf, d, 256-int64(c))
-		}
+// readRLE reads the data of one channel of a tile, which must end where the
+// channel does.
+func (d *decoder) readRLE(channel []byte, r io.Reader) {
+	if d.Err != nil {
+		return
 	}
 
-	if count < 0 {
-		return ErrInvalidRLE
-	}
+	cr := rle{Reader: &byteio.StickyBigEndianReader{Reader: io.LimitReader(r, maxRLE)}}
 
-	return nil
+	if _, err := cr.Read(channel); err != nil {
+		d.SetError(noEOF(err))
+	}
 }
 
 // Errors.
-- 
2.43.0


From d2e2d867c86eb687b9ce4d44ce1e5924fbd19483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:38 +0000
Subject: [PATCH 42/74] fix: xcf: panic on colours which are not in the palette

---
 xcf/decoder.go      |  4 ++++
 xcf/image_decode.go | 21 +++++++++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/xcf/decoder.go b/xcf/decoder.go
index e6cec0c..01157b0 100644
--- a/xcf/decoder.go
+++ b/xcf/decoder.go
@@ -261,6 +261,10 @@ PropertyLoop:
 		}
 	}
 
+	if baseType == baseIndexed && len(palette) == 0 {
+		dr.SetError(ErrInvalidPalette)
+	}
+
 	return palette, compression, nil
 }
 
diff --git a/xcf/image_decode.go b/xcf/image_decode.go
index aa71732..d82ab13 100644
--- a/xcf/image_decode.go
+++ b/xcf/image_decode.go
@@ -175,6 +175,8 @@ func (d *decoder) readAndDecompressImage(mode uint32, r image.Rectangle, bpp, wi
 				}
 			}
 
+			d.checkIndexes(mode, channels[0], step)
+
 			if d.Err != nil {
 				return nil
 			}
@@ -231,6 +233,10 @@ func (d *decoder) readCompressedImage(mode uint32, r image.Rectangle, bpp, width
 			for i := uint32(0); i < bpp; i++ {
 				d.readRLE(pixBuffer[:n], io.TeeReader(d.rs, &buf))
 
+				if i == 0 {
+					d.checkIndexes(mode, pixBuffer[:n], 1)
+				}
+
 				if d.Err != nil {
 					return nil
 				}
@@ -265,6 +271,21 @@ func (d *decoder) readCompressedImage(mode uint32, r image.Rectangle, bpp, width
 	}
 }
 
+// checkIndexes makes sure that the palette has all of the colours used.
+func (d *decoder) checkIndexes(mode uint32, channel []byte, step int) {
+	if mode>>1 != baseIndexed {
+		return
+	}
+
+	for i := 0; i < len(channel); i += step {
+		if int(channel[i]) >= len(d.palette) {
+			d.SetError(ErrInvalidPalette)
+
+			return
+		}
+	}
+}
+
 /*
 type colourReader interface {
 	ReadByte() byte
-- 
2.43.0


From 456d7c85f79ac30f7912a9c7f74376ddc94dcd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:04 +0000
Subject: [PATCH 43/74] fix: xcf: all layers were read at the same time, and
 any of their errors was reported

---
 xcf/decoder.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/xcf/decoder.go b/xcf/decoder.go
index 01157b0..d3cdbd5 100644
--- a/xcf/decoder.go
+++ b/xcf/decoder.go
@@ -61,6 +61,8 @@ const (
 	baseIndexed = 2
 
 	maxPalette = 256
+
+	maxRunning = 16 // layers that are read at the same time
 )
 
 type decoder struct {
@@ -291,14 +293,16 @@ func readLayerPointers(dr reader, mode uint32) []uint64 {
 func readLayers(dr reader, r io.ReaderAt, layerptrs []uint64, baseType uint32, palette lcolor.AlphaPalette, compression uint8, precision, mode uint32, decompress bool) []layer {
 	layers := make([]layer, len(layerptrs))
 
-	var (
-		errLock sync.Mutex
-		wg      sync.WaitGroup
-	)
+	errs := make([]error, len(layerptrs))
+	running := make(chan struct{}, maxRunning)
+
+	var wg sync.WaitGroup
 
 	wg.Add(len(layerptrs))
 
 	for n, lptr := range layerptrs {
+		running <- struct{}{}
+
 		go func(n int, lptr uint64) {
 			d := decoder{
 				reader:      newReader(r),
@@ -313,12 +317,9 @@ func readLayers(dr reader, r io.ReaderAt, layerptrs []uint64, baseType uint32, p
 			d.Goto(lptr)
 
 			layers[n] = d.ReadLayer()
+			errs[n] = d.Err
 
-			if d.Err != nil {
-				errLock.Lock()
-				dr.SetError(d.Err)
-				errLock.Unlock()
-			}
+			<-running
 
 			wg.Done()
 		}(n, lptr)
@@ -326,6 +327,14 @@ func readLayers(dr reader, r io.ReaderAt, layerptrs []uint64, baseType uint32, p
 
 	wg.Wait()
 
+	for _, err := range errs {
+		if err != nil {
+			dr.SetError(err)
+
+			break
+		}
+	}
+
 	return layers
 }
 
-- 
2.43.0


From 434085298e158bc37d51f7b002e711a9643ba847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:05 +0000
Subject: [PATCH 44/74] fix: xcf: placement of layers in their groups, and of
 clipped layers

---
 xcf/decoder.go      | 94 +++++++++++++++++++--------------------------
 xcf/layer_decode.go |  8 ++--
 2 files changed, 44 insertions(+), 58 deletions(-)

diff --git a/xcf/decoder.go b/xcf/decoder.go
index d3cdbd5..e9cfc26 100644
--- a/xcf/decoder.go
+++ b/xcf/decoder.go
@@ -124,13 +124,6 @@ func DecodeCompressed(r io.ReaderAt) (limage.Image, error) {
 	return decodeImage(r, false)
 }
 
-type groupOffset struct {
-	Group            limage.Image
-	OffsetX, OffsetY int
-	Parent           *limage.Image
-	Offset           int
-}
-
 func decodeImage(r io.ReaderAt, decompress bool) (limage.Image, error) {
 	dr := newReader(r)
 
@@ -171,14 +164,12 @@ func decodeImage(r io.ReaderAt, decompress bool) (limage.Image, error) {
 		return nil, dr.Err
 	}
 
-	groups, err := makeGroups(layers, bounds)
+	root, err := makeGroups(layers)
 	if err != nil {
 		return nil, err
 	}
 
-	im := makeImage(groups)
-
-	return im, nil
+	return makeImage(root, bounds), nil
 }
 
 func readHeader(dr reader) (uint32, error) {
@@ -338,14 +329,15 @@ func readLayers(dr reader, r io.ReaderAt, layerptrs []uint64, baseType uint32, p
 	return layers
 }
 
-func makeGroups(layers []layer, bounds image.Rectangle) (map[string]*groupOffset, error) {
-	var (
-		groups = make(map[string]*groupOffset)
-		n      rune
-		alpha  = true
-	)
+// item is a layer and, for a group, those in it.
+type item struct {
+	layer
+	items []*item
+}
 
-	groups[""] = &groupOffset{Group: make(limage.Image, 0, 32)}
+func makeGroups(layers []layer) (*item, error) {
+	root := &item{layer: layer{group: true}}
+	alpha := true
 
 	for _, l := range layers {
 		if !alpha {
@@ -353,50 +345,26 @@ func makeGroups(layers []layer, bounds image.Rectangle) (map[string]*groupOffset
 		}
 
 		alpha = l.alpha
+		parent := root
 
-		if len(l.itemPath) == 0 {
-			l.itemPath = []rune{n}
-			n++
-		}
-
-		g := groups[string(l.itemPath[:len(l.itemPath)-1])]
-		if g == nil {
-			return nil, ErrInvalidGroup
-		}
-
-		if l.group {
-			groups[string(l.itemPath)] = &groupOffset{
-				Group:   make(limage.Image, 0, 32),
-				OffsetX: l.LayerBounds.Min.X,
-				OffsetY: l.LayerBounds.Min.Y,
-				Parent:  &g.Group,
-				Offset:  len(g.Group),
+		// The path has the positions of the groups, and then that of the layer.
+		for n := 0; n < len(l.itemPath)-1; n++ {
+			p := l.itemPath[n]
+			if p >= uint32(len(parent.items)) || !parent.items[p].group {
+				return nil, ErrInvalidGroup
 			}
+
+			parent = parent.items[p]
 		}
 
-		l.LayerBounds = l.LayerBounds.Intersect(bounds).Sub(image.Pt(g.OffsetX, g.OffsetY))
-		g.Group = append(g.Group, l.Layer)
+		parent.items = append(parent.items, &item{layer: l})
 	}
 
-	return groups, nil
+	return root, nil
 }
 
-func makeImage(groups map[string]*groupOffset) limage.Image {
-	var im limage.Image
-
-	for _, g := range groups {
-		ng := make(limage.Image, len(g.Group))
-
-		copy(ng, g.Group)
-
-		g.Group = ng
-
-		if g.Parent == nil {
-			im = ng
-		} else {
-			(*g.Parent)[g.Offset].Image = ng
-		}
-	}
+func makeImage(root *item, bounds image.Rectangle) limage.Image {
+	im := makeGroup(root, image.Point{}, bounds)
 
 	if len(im) > 0 {
 		switch im[len(im)-1].Mode {
@@ -409,6 +377,24 @@ func makeImage(groups map[string]*groupOffset) limage.Image {
 	return im
 }
 
+func makeGroup(group *item, offset image.Point, bounds image.Rectangle) limage.Image {
+	im := make(limage.Image, len(group.items))
+
+	for n, i := range group.items {
+		l := i.Layer
+
+		if i.group {
+			l.Image = makeGroup(i, l.LayerBounds.Min, bounds)
+		}
+
+		l = l.SubImageLayer(bounds)
+		l.LayerBounds = l.LayerBounds.Sub(offset)
+		im[n] = l
+	}
+
+	return im
+}
+
 // Errors.
 var (
 	ErrInvalidFileTypeID   = errors.New("invalid file type identification")
diff --git a/xcf/layer_decode.go b/xcf/layer_decode.go
index e8d4bcd..fd34e7e 100644
--- a/xcf/layer_decode.go
+++ b/xcf/layer_decode.go
@@ -11,7 +11,7 @@ type layer struct {
 	limage.Layer
 	alpha    bool
 	group    bool
-	itemPath []rune
+	itemPath []uint32
 }
 
 func (d *decoder) ReadLayer() layer {
@@ -236,10 +236,10 @@ func (l *layer) readItemPath(d *decoder, plength uint32) {
 		d.SetError(ErrInvalidItemPathLength)
 	}
 
-	l.itemPath = make([]rune, plength>>2)
+	l.itemPath = l.itemPath[:0]
 
-	for i := uint32(0); i < plength>>2; i++ {
-		l.itemPath[i] = rune(d.ReadUint32())
+	for i := uint32(0); i < plength>>2 && d.Err == nil; i++ {
+		l.itemPath = append(l.itemPath, d.ReadUint32())
 	}
 }
 
-- 
2.43.0


From b2c6a1675f1e121eba5eb4927d073b5261b3e56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:39 +0000
Subject: [PATCH 45/74] fix: xcf: DecodeCompressed panicked on masks

---
 xcf/channel.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xcf/channel.go b/xcf/channel.go
index 56e79c6..c67706a 100644
--- a/xcf/channel.go
+++ b/xcf/channel.go
@@ -19,7 +19,10 @@ func (d *decoder) ReadChannel() *image.Gray {
 
 	d.Goto(hptr)
 
-	if im := d.ReadImage(width, height, 2); im != nil {
+	c := *d
+	c.decompress = true
+
+	if im := c.ReadImage(width, height, 2); im != nil {
 		return im.(*image.Gray) // gray
 	}
 
-- 
2.43.0


From d6d3d5e4716255f9099549a2878d7e7efae7f197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:40 +0000
Subject: [PATCH 46/74] fix: xcf: masks of layers which are not at the origin
 were refused

---
 xcf/layer_decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcf/layer_decode.go b/xcf/layer_decode.go
index fd34e7e..fa23cf7 100644
--- a/xcf/layer_decode.go
+++ b/xcf/layer_decode.go
@@ -252,7 +252,7 @@ func (l *layer) readMask(d *decoder) {
 		return
 	}
 
-	if !l.LayerBounds.Eq(m.Mask.Bounds()) {
+	if l.LayerBounds.Size() != m.Mask.Bounds().Size() {
 		d.SetError(ErrInconsistantData)
 
 		return
-- 
2.43.0


From eecb41a45c51d6cf8f6bed81050f747c59ae4758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:41 +0000
Subject: [PATCH 47/74] fix: xcf: round the opacity read, rather than
 truncating it

---
 xcf/layer_decode.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xcf/layer_decode.go b/xcf/layer_decode.go
index fa23cf7..12454ec 100644
--- a/xcf/layer_decode.go
+++ b/xcf/layer_decode.go
@@ -143,7 +143,12 @@ PropertyLoop:
 		case propTextLayerFlags:
 			d.SkipUint32()
 		case propFloatOpacity:
-			l.Transparency = 255 - uint8(d.ReadFloat32()*255)
+			o := d.ReadFloat32()
+			if !(o >= 0 && o <= 1) {
+				d.SetError(ErrInvalidOpacity)
+			}
+
+			l.Transparency = 255 - uint8(o*255+0.5)
 		default:
 			d.Skip(plength)
 		}
-- 
2.43.0


From 11a96a0e29799d40555022ff89ae98a81674e548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:42 +0000
Subject: [PATCH 48/74] fix: xcf: gray layers lost their modes, and indexed
 ones dissolve

---
 xcf/layer_decode.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xcf/layer_decode.go b/xcf/layer_decode.go
index 12454ec..00e39a0 100644
--- a/xcf/layer_decode.go
+++ b/xcf/layer_decode.go
@@ -124,8 +124,10 @@ PropertyLoop:
 		case propLockAlpha:
 			d.SkipBoolProperty()
 		case propMode:
-			if d.baseType != 0 {
+			if d.baseType == baseIndexed {
 				switch d.ReadUint32() {
+				case 1:
+					l.Mode = limage.CompositeDissolve
 				case 2: // Behind
 					l.Mode = limage.CompositeBehind
 				default:
-- 
2.43.0


From 4b082b4bf59bbeec3ca5635bd24dbdcf66dca23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:43 +0000
Subject: [PATCH 49/74] fix: xcf: masks of groups were lost, and masks not to
 be applied were

---
 xcf/decoder.go      |  4 ++++
 xcf/layer_decode.go | 21 ++++++++++++---------
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/xcf/decoder.go b/xcf/decoder.go
index e9cfc26..d5eb716 100644
--- a/xcf/decoder.go
+++ b/xcf/decoder.go
@@ -385,6 +385,10 @@ func makeGroup(group *item, offset image.Point, bounds image.Rectangle) limage.I
 
 		if i.group {
 			l.Image = makeGroup(i, l.LayerBounds.Min, bounds)
+
+			if i.mask != nil {
+				l.Image = limage.MaskedImage{Image: l.Image, Mask: i.mask}
+			}
 		}
 
 		l = l.SubImageLayer(bounds)
diff --git a/xcf/layer_decode.go b/xcf/layer_decode.go
index 00e39a0..5dccf35 100644
--- a/xcf/layer_decode.go
+++ b/xcf/layer_decode.go
@@ -12,6 +12,8 @@ type layer struct {
 	alpha    bool
 	group    bool
 	itemPath []uint32
+	mask     *image.Gray
+	unmasked bool // the mask is not to be applied
 }
 
 func (d *decoder) ReadLayer() layer {
@@ -64,7 +66,7 @@ func (d *decoder) ReadLayer() layer {
 		}
 	}
 
-	if mptr != 0 { // read layer mask
+	if mptr != 0 && !l.unmasked { // read layer mask
 		d.Goto(mptr)
 		l.readMask(d)
 	}
@@ -110,7 +112,7 @@ PropertyLoop:
 		case propActiveLayer:
 			// active layer
 		case propApplyMask:
-			d.SkipBoolProperty()
+			l.unmasked = !d.ReadBoolProperty()
 		case propEditMask:
 			d.SkipBoolProperty()
 		case propFloatingSelection:
@@ -251,21 +253,22 @@ func (l *layer) readItemPath(d *decoder, plength uint32) {
 }
 
 func (l *layer) readMask(d *decoder) {
-	var m limage.MaskedImage
-
-	m.Image = l.Image
-
-	if m.Mask = d.ReadChannel(); m.Mask == nil {
+	mask := d.ReadChannel()
+	if mask == nil {
 		return
 	}
 
-	if l.LayerBounds.Size() != m.Mask.Bounds().Size() {
+	if l.LayerBounds.Size() != mask.Bounds().Size() {
 		d.SetError(ErrInconsistantData)
 
 		return
 	}
 
-	l.Image = m
+	if l.group { // which has its layers put in place later
+		l.mask = mask
+	} else {
+		l.Image = limage.MaskedImage{Image: l.Image, Mask: mask}
+	}
 }
 
 // Errors.
-- 
2.43.0


From f8b8805ac973e29290b83cd79e93653cb11fad7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:44 +0000
Subject: [PATCH 50/74] fix: xcf: text of a group took the place of its layers

---
 xcf/layer_decode.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xcf/layer_decode.go b/xcf/layer_decode.go
index 5dccf35..ee2cabb 100644
--- a/xcf/layer_decode.go
+++ b/xcf/layer_decode.go
@@ -52,7 +52,8 @@ func (d *decoder) ReadLayer() layer {
 			return l
 		}
 	}
-	if t := parasites.Get(textParasiteName); t != nil {
+
+	if t := parasites.Get(textParasiteName); t != nil && !l.group {
 		textData, err := parseTextData(t)
 		if err != nil {
 			d.SetError(ErrInvalidLayerType)
-- 
2.43.0


From 9082c3d8ffa43525828db0523ddad534851daebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:06 +0000
Subject: [PATCH 51/74] fix: xcf: the property of floating selections is longer
 from version 11 on

---
 xcf/layer_decode.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/xcf/layer_decode.go b/xcf/layer_decode.go
index ee2cabb..8e3e50b 100644
--- a/xcf/layer_decode.go
+++ b/xcf/layer_decode.go
@@ -116,8 +116,6 @@ PropertyLoop:
 			l.unmasked = !d.ReadBoolProperty()
 		case propEditMask:
 			d.SkipBoolProperty()
-		case propFloatingSelection:
-			d.SkipUint32()
 		case propGroupItem:
 			l.group = true
 		case propItemPath:
-- 
2.43.0


From e04b56f899e292bcb8f79a9b7281a4cf2e3ea7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:50 +0000
Subject: [PATCH 52/74] fix: xcf: compressed images were read wrongly from
 several goroutines

---
 xcf/compressed.go   | 109 ++++++++++++++++++++++++++++----------------
 xcf/image_decode.go |  11 ++---
 2 files changed, 74 insertions(+), 46 deletions(-)

diff --git a/xcf/compressed.go b/xcf/compressed.go
index a2c4264..1c92e20 100644
--- a/xcf/compressed.go
+++ b/xcf/compressed.go
@@ -1,10 +1,9 @@
 package xcf
 
 import (
-	"errors"
 	"image"
 	"image/color"
-	"io"
+	"sync"
 
 	"vimagination.zapto.org/byteio"
 	"vimagination.zapto.org/limage/lcolor"
@@ -12,37 +11,69 @@ import (
 )
 
 type compressedImage struct {
-	tiles        [][][]byte
-	width        int
+	tiles  [][][]byte
+	width  int
+	height int
+	cache  *tileCache
+}
+
+// tileCache holds the last tile read.
+type tileCache struct {
+	mutex        sync.Mutex
 	tile         int
-	decompressed [64 * 64 * 4]byte
+	decompressed [4][]byte
+}
+
+func newCompressedImage(tiles [][][]byte, width, height int) compressedImage {
+	return compressedImage{
+		tiles:  tiles,
+		width:  width,
+		height: height,
+		cache:  &tileCache{tile: -1},
+	}
 }
 
-func (c *compressedImage) decompressTile(x, y int) int {
-	if tile := (y/64)*((c.width+63)/64) + (x / 64); tile != c.tile {
-		var (
-			n    int
-			data memio.Buffer
-		)
+// pixel gives the values of the channels at the coords, which must be in the
+// image.
+func (c *compressedImage) pixel(x, y int) [4]byte {
+	c.cache.mutex.Lock()
+	defer c.cache.mutex.Unlock()
+
+	tile := (y/64)*((c.width+63)/64) + (x / 64)
 
-		r := rle{Reader: &byteio.StickyBigEndianReader{Reader: &data}}
+	// The tiles at the right and at the bottom may be smaller.
+	w, h := c.width-x&^63, c.height-y&^63
 
-		for n, data = range c.tiles[tile] {
-			r.Read(c.decompressed[64*64*n : 64*64*(n+1)])
+	if w > 64 {
+		w = 64
+	}
+
+	if h > 64 {
+		h = 64
+	}
 
-			if errors.Is(r.Reader.Err, io.EOF) {
-				r.Reader.Err = nil
+	if tile != c.cache.tile {
+		for n, stored := range c.tiles[tile] {
+			if c.cache.decompressed[n] == nil {
+				c.cache.decompressed[n] = make([]byte, 64*64)
 			}
+
+			data := memio.Buffer(stored)
+			r := rle{Reader: &byteio.StickyBigEndianReader{Reader: &data}}
+
+			r.Read(c.cache.decompressed[n][:w*h])
 		}
 
-		c.tile = tile
+		c.cache.tile = tile
 	}
 
-	if x < c.width & ^63 {
-		return 64*(y%64) + (x % 64)
+	var p [4]byte
+
+	for n := range c.tiles[tile] {
+		p[n] = c.cache.decompressed[n][w*(y&63)+x&63]
 	}
 
-	return (c.width&63)*(y%64) + (x % 64)
+	return p
 }
 
 // CompressedRGB is an image.Image for which the data remains in a compressed
@@ -67,12 +98,12 @@ func (c *CompressedRGB) RGBAt(x, y int) lcolor.RGB {
 		return lcolor.RGB{}
 	}
 
-	p := c.decompressTile(x, y)
+	p := c.pixel(x, y)
 
 	return lcolor.RGB{
-		R: c.decompressed[p],
-		G: c.decompressed[p+64*64],
-		B: c.decompressed[p+64*64*2],
+		R: p[0],
+		G: p[1],
+		B: p[2],
 	}
 }
 
@@ -98,13 +129,13 @@ func (c *CompressedNRGBA) NRGBAAt(x, y int) color.NRGBA {
 		return color.NRGBA{}
 	}
 
-	p := c.decompressTile(x, y)
+	p := c.pixel(x, y)
 
 	return color.NRGBA{
-		c.decompressed[p],
-		c.decompressed[p+64*64],
-		c.decompressed[p+64*64*2],
-		c.decompressed[p+64*64*3],
+		p[0],
+		p[1],
+		p[2],
+		p[3],
 	}
 }
 
@@ -130,10 +161,10 @@ func (c *CompressedGray) GrayAt(x, y int) color.Gray {
 		return color.Gray{}
 	}
 
-	p := c.decompressTile(x, y)
+	p := c.pixel(x, y)
 
 	return color.Gray{
-		c.decompressed[p],
+		p[0],
 	}
 }
 
@@ -159,11 +190,11 @@ func (c *CompressedGrayAlpha) GrayAlphaAt(x, y int) lcolor.GrayAlpha {
 		return lcolor.GrayAlpha{}
 	}
 
-	p := c.decompressTile(x, y)
+	p := c.pixel(x, y)
 
 	return lcolor.GrayAlpha{
-		Y: c.decompressed[p],
-		A: c.decompressed[p+64*64],
+		Y: p[0],
+		A: p[1],
 	}
 }
 
@@ -191,8 +222,8 @@ func (c *CompressedPaletted) At(x, y int) color.Color {
 		return color.Gray{}
 	}
 
-	p := c.decompressTile(x, y)
-	i := c.decompressed[p]
+	p := c.pixel(x, y)
+	i := p[0]
 	r, g, b, _ := c.Palette[i].RGBA()
 
 	return color.NRGBA{
@@ -227,13 +258,13 @@ func (c *CompressedPalettedAlpha) At(x, y int) color.Color {
 		return color.Gray{}
 	}
 
-	p := c.decompressTile(x, y)
-	r, g, b, _ := c.Palette[c.decompressed[p]].RGBA()
+	p := c.pixel(x, y)
+	r, g, b, _ := c.Palette[p[0]].RGBA()
 
 	return color.NRGBA{
 		R: uint8(r >> 8),
 		G: uint8(g >> 8),
 		B: uint8(b >> 8),
-		A: c.decompressed[64*64+p],
+		A: p[1],
 	}
 }
diff --git a/xcf/image_decode.go b/xcf/image_decode.go
index d82ab13..d51e532 100644
--- a/xcf/image_decode.go
+++ b/xcf/image_decode.go
@@ -201,12 +201,7 @@ func (d *decoder) readAndDecompressImage(mode uint32, r image.Rectangle, bpp, wi
 }
 
 func (d *decoder) readCompressedImage(mode uint32, r image.Rectangle, bpp, width, height uint32, tiles []uint64) image.Image {
-	ci := compressedImage{
-		tiles: make([][][]byte, 0, len(tiles)),
-		width: int(width),
-		tile:  -1,
-	}
-
+	stored := make([][][]byte, 0, len(tiles))
 	buf := make(memio.Buffer, 0, 64*64*4)
 
 	var pixBuffer [64 * 64]byte
@@ -249,10 +244,12 @@ func (d *decoder) readCompressedImage(mode uint32, r image.Rectangle, bpp, width
 				ts = append(ts, b)
 			}
 
-			ci.tiles = append(ci.tiles, ts)
+			stored = append(stored, ts)
 		}
 	}
 
+	ci := newCompressedImage(stored, int(width), int(height))
+
 	switch mode {
 	case 0: // rgb
 		return &CompressedRGB{ci, r}
-- 
2.43.0


From e318e94c48d224a4ed7b7b5098c72e3da69a3608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:14 +0000
Subject: [PATCH 53/74] fix: xcf: parasites of text layers that never ended, or
 panicked

---
 xcf/parasites.go | 25 ++++++++++++++++---------
 xcf/text.go      |  4 +++-
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/xcf/parasites.go b/xcf/parasites.go
index bb560e5..b4185ac 100644
--- a/xcf/parasites.go
+++ b/xcf/parasites.go
@@ -82,7 +82,7 @@ func (ps *parasite) Parse() ([]tag, error) {
 	tags := make([]tag, 0, 32)
 
 	for {
-		tag, err := readTag(&p)
+		tag, err := readTag(&p, 0)
 		if err != nil {
 			if !errors.Is(p.Err, io.EOF) {
 				return nil, err
@@ -121,7 +121,14 @@ type tag struct {
 	Values []interface{}
 }
 
-func readTag(p *parser.Parser) (tag, error) {
+// maxTagDepth is how deep tags may be nested.
+const maxTagDepth = 100
+
+func readTag(p *parser.Parser, depth int) (tag, error) {
+	if depth > maxTagDepth {
+		return tag{}, ErrInvalidParasites
+	}
+
 	if p.Accept(parser.TokenDone) {
 		return tag{}, io.EOF
 	}
@@ -166,7 +173,7 @@ func readTag(p *parser.Parser) (tag, error) {
 
 			return tg, nil
 		case tokenOpen:
-			ttg, err := readTag(p)
+			ttg, err := readTag(p, depth+1)
 
 			p.TokeniserState(valueTK)
 
@@ -263,7 +270,7 @@ func valueTK(t *parser.Tokeniser) (parser.Token, parser.TokenFunc) {
 		}, valueTK
 	}
 
-	t.AcceptRun(valName)
+	t.ExceptRun(whitespace + open + close + quoted + "\x00")
 
 	return parser.Token{
 		Type: tokenValueString,
@@ -275,20 +282,20 @@ func quotedString(t *parser.Tokeniser) string {
 	t.Accept(quoted)
 	t.Get()
 
-	var s string
+	var s strings.Builder
 
 	for {
 		t.ExceptRun(quoted + "\\")
 
-		s += t.Get()
+		s.WriteString(t.Get())
 
 		if t.Accept("\\") {
 			c := string(t.Peek())
 			switch c {
 			case "\"", "\\":
-				s += c
+				s.WriteString(c)
 			default:
-				s += "\\" + c
+				s.WriteString("\\" + c)
 			}
 
 			t.Accept(c)
@@ -303,7 +310,7 @@ func quotedString(t *parser.Tokeniser) string {
 	t.Accept(quoted)
 	t.Get()
 
-	return s
+	return s.String()
 }
 
 // Errors.
diff --git a/xcf/text.go b/xcf/text.go
index 8344279..f2220ba 100644
--- a/xcf/text.go
+++ b/xcf/text.go
@@ -74,7 +74,9 @@ func parseText(tags []tag) (string, limage.TextDatum) {
 	for _, tg := range tags {
 		switch tg.Name {
 		case "text":
-			defaultText.Data, _ = tg.Values[0].(string)
+			if len(tg.Values) == 1 {
+				defaultText.Data, _ = tg.Values[0].(string)
+			}
 		case "markup":
 			if len(tg.Values) == 1 {
 				textData, _ = tg.Values[0].(string)
-- 
2.43.0


From 28c005a4c280b7880a163c9ff9001f8ea8da5c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:15 +0000
Subject: [PATCH 54/74] fix: xcf: escape sequences in the text of text layers

---
 xcf/parasites.go | 43 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/xcf/parasites.go b/xcf/parasites.go
index b4185ac..286c297 100644
--- a/xcf/parasites.go
+++ b/xcf/parasites.go
@@ -103,6 +103,7 @@ const (
 	chars      = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
 	valName    = chars + "-"
 	digit      = "1234567890"
+	octal      = "01234567"
 	quoted     = "\""
 	whitespace = "\n\r "
 )
@@ -290,17 +291,10 @@ func quotedString(t *parser.Tokeniser) string {
 		s.WriteString(t.Get())
 
 		if t.Accept("\\") {
-			c := string(t.Peek())
-			switch c {
-			case "\"", "\\":
-				s.WriteString(c)
-			default:
-				s.WriteString("\\" + c)
-			}
-
-			t.Accept(c)
 			t.Get()
 
+			writeEscaped(t, &s)
+
 			continue
 		}
 
@@ -313,6 +307,37 @@ func quotedString(t *parser.Tokeniser) string {
 	return s.String()
 }
 
+// writeEscaped writes what an escape sequence stands for.
+func writeEscaped(t *parser.Tokeniser, s *strings.Builder) {
+	if t.Accept(octal) {
+		for i := 0; i < 2 && t.Accept(octal); i++ {
+		}
+
+		n, _ := strconv.ParseUint(t.Get(), 8, 16)
+
+		s.WriteByte(byte(n))
+
+		return
+	}
+
+	t.Except("")
+
+	switch c := t.Get(); c {
+	case "b":
+		s.WriteByte('\b')
+	case "f":
+		s.WriteByte('\f')
+	case "n":
+		s.WriteByte('\n')
+	case "r":
+		s.WriteByte('\r')
+	case "t":
+		s.WriteByte('\t')
+	default:
+		s.WriteString(c)
+	}
+}
+
 // Errors.
 var (
 	ErrInvalidParasites = errors.New("invalid parasites layout")
-- 
2.43.0


From 69aeccc1911db1adac9f10295d70bddeeb8c0e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:16 +0000
Subject: [PATCH 55/74] fix: xcf: negative numbers in the parasites of text
 layers

---
 xcf/parasites.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcf/parasites.go b/xcf/parasites.go
index 286c297..90bcb00 100644
--- a/xcf/parasites.go
+++ b/xcf/parasites.go
@@ -260,7 +260,7 @@ func valueTK(t *parser.Tokeniser) (parser.Token, parser.TokenFunc) {
 		}, valueTK
 	}
 
-	if strings.ContainsRune(digit, c) {
+	if t.Accept("-"); strings.ContainsRune(digit, t.Peek()) {
 		t.AcceptRun(digit)
 		t.Accept(".")
 		t.AcceptRun(digit)
-- 
2.43.0


From 42642701d0f04abdbe457ed8a697e7eea5ab5d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:06 +0000
Subject: [PATCH 56/74] fix: xcf: color of text layers

---
 xcf/text.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/xcf/text.go b/xcf/text.go
index f2220ba..613b6aa 100644
--- a/xcf/text.go
+++ b/xcf/text.go
@@ -98,11 +98,8 @@ func parseText(tags []tag) (string, limage.TextDatum) {
 			if len(tg.Values) == 1 {
 				t, _ := tg.Values[0].(tag)
 
-				if t.Name == "color-rgb" && len(t.Values) != 3 {
-					r, _ := t.Values[0].(float64)
-					g, _ := t.Values[1].(float64)
-					b, _ := t.Values[2].(float64)
-					defaultText.ForeColor = lcolor.RGB{R: uint8(r), G: uint8(g), B: uint8(b)}
+				if t.Name == "color-rgb" && len(t.Values) == 3 {
+					defaultText.ForeColor = lcolor.RGB{R: unit(t.Values[0]), G: unit(t.Values[1]), B: unit(t.Values[2])}
 				}
 			}
 		case "justify":
@@ -117,6 +114,18 @@ func parseText(tags []tag) (string, limage.TextDatum) {
 	return textData, defaultText
 }
 
+// unit converts a number from 0 to 1.
+func unit(v interface{}) uint8 {
+	f, _ := v.(float64)
+	if f <= 0 {
+		return 0
+	} else if f >= 1 {
+		return 255
+	}
+
+	return uint8(f*255 + 0.5)
+}
+
 func processText(t xml.StartElement, nt limage.TextDatum) (limage.TextDatum, error) {
 	switch t.Name.Local {
 	case "markup":
-- 
2.43.0


From 1e8a72f5bcab726df1168c9b43bfcb5dd5ce3b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:07 +0000
Subject: [PATCH 57/74] fix: xcf: background, and large, named and negative
 sizes, of text

---
 xcf/text.go | 89 ++++++++++++++++++++++++++++++++---------------------
 1 file changed, 54 insertions(+), 35 deletions(-)

diff --git a/xcf/text.go b/xcf/text.go
index 613b6aa..110ba71 100644
--- a/xcf/text.go
+++ b/xcf/text.go
@@ -8,6 +8,7 @@ import (
 	"html"
 	"image/color"
 	"io"
+	"math"
 	"strconv"
 	"strings"
 	"unsafe"
@@ -87,8 +88,9 @@ func parseText(tags []tag) (string, limage.TextDatum) {
 			}
 		case "font-size":
 			if len(tg.Values) == 1 {
-				f, _ := tg.Values[0].(float64)
-				defaultText.Size = uint32(f)
+				if f, _ := tg.Values[0].(float64); f > 0 && f <= math.MaxUint32 {
+					defaultText.Size = uint32(f)
+				}
 			}
 		case "font-size-unit":
 		case "antialias":
@@ -135,48 +137,25 @@ func processText(t xml.StartElement, nt limage.TextDatum) (limage.TextDatum, err
 			case "font":
 				nt.Font = a.Value
 			case "foreground":
-				if len(a.Value) == 7 && a.Value[0] == '#' {
-					n, err := strconv.ParseUint(a.Value[1:], 16, 32)
-					if err != nil {
-						return nt, err
-					}
-
-					nt.ForeColor = color.RGBA{uint8(n >> 16), uint8((n >> 8) & 255), uint8(n & 255), 255}
-				} else if len(a.Value) == 4 && a.Value[0] == '#' {
-					n, err := strconv.ParseUint(a.Value[1:], 16, 32)
-					if err != nil {
-						return nt, err
-					}
-
-					r := (n >> 4) & 240
-					r |= r >> 4
-					g := n & 240
-					g |= g >> 4
-					b := n & 15
-					b |= b << 4
-					nt.ForeColor = color.RGBA{uint8(r), uint8(g), uint8(b), 255}
-				}
-			case "size":
-				s, err := strconv.ParseUint(a.Value, 10, 32)
+				c, err := parseColor(a.Value, nt.ForeColor)
 				if err != nil {
 					return nt, err
 				}
 
-				nt.Size = uint32(s) >> 10
-			case "letter_spacing":
-				ls, err := strconv.ParseUint(a.Value, 10, 32)
+				nt.ForeColor = c
+			case "background":
+				c, err := parseColor(a.Value, nt.BackColor)
 				if err != nil {
 					return nt, err
 				}
 
-				nt.LetterSpacing = uint32(ls) >> 10
+				nt.BackColor = c
+			case "size":
+				nt.Size = parseSize(a.Value, nt.Size)
+			case "letter_spacing":
+				nt.LetterSpacing = parseSize(a.Value, nt.LetterSpacing)
 			case "rise":
-				r, err := strconv.ParseUint(a.Value, 10, 32)
-				if err != nil {
-					return nt, err
-				}
-
-				nt.Rise = uint32(r) >> 10
+				nt.Rise = parseSize(a.Value, nt.Rise)
 			}
 		}
 	case "b":
@@ -192,6 +171,46 @@ func processText(t xml.StartElement, nt limage.TextDatum) (limage.TextDatum, err
 	return nt, nil
 }
 
+// parseColor parses #RRGGBB and #RGB, all else leaves the current colour.
+func parseColor(s string, current color.Color) (color.Color, error) {
+	if (len(s) != 7 && len(s) != 4) || s[0] != '#' {
+		return current, nil
+	}
+
+	n, err := strconv.ParseUint(s[1:], 16, 32)
+	if err != nil {
+		return nil, err
+	}
+
+	if len(s) == 7 {
+		return color.RGBA{uint8(n >> 16), uint8((n >> 8) & 255), uint8(n & 255), 255}, nil
+	}
+
+	r := (n >> 4) & 240
+	r |= r >> 4
+	g := n & 240
+	g |= g >> 4
+	b := n & 15
+	b |= b << 4
+
+	return color.RGBA{uint8(r), uint8(g), uint8(b), 255}, nil
+}
+
+// parseSize parses a number of 1024ths. Negative sizes cannot be represented,
+// and are read as zero; names of sizes leave the current size.
+func parseSize(s string, current uint32) uint32 {
+	n, err := strconv.ParseInt(s, 10, 64)
+	if err != nil {
+		return current
+	} else if n < 0 {
+		return 0
+	} else if n>>10 > math.MaxUint32 {
+		return math.MaxUint32
+	}
+
+	return uint32(n >> 10)
+}
+
 type quoteWriter struct {
 	*bytes.Buffer
 }
-- 
2.43.0


From 72b363ca57d7fce6bb6e1ad6bee239e9b73901f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:08 +0000
Subject: [PATCH 58/74] fix: xcf: writing of text layers

---
 xcf/text.go   | 185 ++++++++++++++++++++++++++++++++++++--------------
 xcf/writer.go |   7 ++
 2 files changed, 140 insertions(+), 52 deletions(-)

diff --git a/xcf/text.go b/xcf/text.go
index 110ba71..92271c6 100644
--- a/xcf/text.go
+++ b/xcf/text.go
@@ -5,13 +5,12 @@ import (
 	"encoding/xml"
 	"errors"
 	"fmt"
-	"html"
 	"image/color"
 	"io"
 	"math"
 	"strconv"
 	"strings"
-	"unsafe"
+	"unicode/utf8"
 
 	"vimagination.zapto.org/limage"
 	"vimagination.zapto.org/limage/lcolor"
@@ -211,68 +210,109 @@ func parseSize(s string, current uint32) uint32 {
 	return uint32(n >> 10)
 }
 
-type quoteWriter struct {
-	*bytes.Buffer
-}
+// writeQuoted appends the quoted string, as GIMP does.
+func writeQuoted(data []byte, s string) []byte {
+	data = append(data, '"')
+
+	for len(s) > 0 {
+		r, n := utf8.DecodeRuneInString(s)
+
+		switch {
+		case r == '"' || r == '\\':
+			data = append(data, '\\', s[0])
+		case r == '\n':
+			data = append(data, "\\n"...)
+		case r == '\r':
+			data = append(data, "\\r"...)
+		case r == '\t':
+			data = append(data, "\\t"...)
+		case r < ' ' || r == utf8.RuneError && n == 1:
+			data = fmt.Appendf(data, "\\%03o", s[0])
+		default:
+			data = append(data, s[:n]...)
+		}
 
-func (q *quoteWriter) Write(b []byte) (int, error) {
-	return q.WriteString(*(*string)(unsafe.Pointer(&b)))
+		s = s[n:]
+	}
+
+	return append(data, '"')
 }
 
-func (q *quoteWriter) WriteString(s string) (int, error) {
-	for _, r := range s {
-		switch r {
-		case '\\':
-			q.Buffer.WriteString("\\\\")
-		case '"':
-			q.Buffer.WriteString("\\\"")
-		default:
-			q.Buffer.WriteRune(r)
+// isPlain reports whether the text needs no style but that of the whole layer.
+func isPlain(text limage.TextData) bool {
+	for _, td := range text {
+		if len(text) > 1 || td.Bold || td.Italic || td.Underline || td.Strikethrough || td.LetterSpacing != 0 || td.Rise != 0 {
+			return false
+		} else if _, ok := textColor(td.BackColor); ok {
+			return false
 		}
 	}
 
-	return len(s), nil
+	return true
+}
+
+// textColor returns the colour without its alpha, and whether it is seen.
+func textColor(c color.Color) (lcolor.RGB, bool) {
+	if c == nil {
+		return lcolor.RGB{}, false
+	}
+
+	n := color.NRGBAModel.Convert(c).(color.NRGBA)
+
+	return lcolor.RGB{R: n.R, G: n.G, B: n.B}, n.A > 0
 }
 
 func (e *encoder) WriteText(text limage.TextData, dx, dy uint32) {
-	var (
-		data []byte
-		base limage.TextDatum
-	)
+	var data []byte
 
-	if len(text) == 1 {
-		base = text[0]
-		data = fmt.Appendf(data, "(text %q)\n", base.Data)
-	} else {
-		base = limage.TextDatum{
-			Font: "Sans",
-			Size: 18,
+	base := limage.TextDatum{
+		Font: "Sans",
+		Size: 18,
+	}
+
+	if isPlain(text) {
+		for _, td := range text {
+			base = td
 		}
 
-		data = append(data, "(markup \"<markup>"...)
+		data = append(data, "(text "...)
+		data = writeQuoted(data, base.Data)
+	} else {
+		var markup bytes.Buffer
+
+		markup.WriteString("<markup>")
 
 		for _, td := range text {
-			data = writeTextMarkup(td, data)
+			if !writeTextMarkup(&markup, td) {
+				e.SetError(ErrInvalidText)
+
+				return
+			}
 		}
 
-		data = append(data, "</markup>\")\n"...)
+		markup.WriteString("</markup>")
+
+		data = append(data, "(markup "...)
+		data = writeQuoted(data, markup.String())
 	}
 
-	r, g, b, _ := base.ForeColor.RGBA()
+	rgb, _ := textColor(base.ForeColor)
 
-	data = fmt.Appendf(data, "(font %q)\n"+
+	data = append(data, ")\n(font "...)
+	data = writeQuoted(data, base.Font)
+	data = fmt.Appendf(data, ")\n"+
 		"(font-size %d.000000000)\n"+
-		"(font-size-units pixels)\n"+
+		"(font-size-unit pixels)\n"+
 		"(antialias yes)\n"+
 		"(base-direction ltr)\n"+
-		"(color (color-rgb %d.000000 %d.000000 %d.000000))\n"+
+		"(color (color-rgb %f %f %f))\n"+
 		"(justify left)\n"+
 		"(box-mode dynamic)\n"+
 		"(box-width %d.000000)\n"+
 		"(box-height %d.000000)\n"+
 		"(box-unit pixels)\n"+
 		"(hinting yes)\n"+
-		"\x00", base.Font, base.Size, r>>8, g>>8, b>>8, dx, dy)
+		"\x00", base.Size, float64(rgb.R)/255, float64(rgb.G)/255, float64(rgb.B)/255, dx, dy)
 
 	// write base
 
@@ -288,64 +328,105 @@ func (e *encoder) WriteText(text limage.TextData, dx, dy uint32) {
 	e.Write(data)
 }
 
-func writeTextMarkup(td limage.TextDatum, data []byte) []byte {
+// writeTextMarkup writes text with its style, and reports whether it could be.
+func writeTextMarkup(w *bytes.Buffer, td limage.TextDatum) bool {
 	closers := make([]string, 0)
 
-	if r, g, b, _ := td.ForeColor.RGBA(); r != 0 || g != 0 || b != 0 {
-		data = fmt.Appendf(data, "<span foreground=\\\"#%02X%02X%02X\\\">", r>>8, g>>8, b>>8)
+	if rgb, ok := textColor(td.ForeColor); ok && rgb != (lcolor.RGB{}) {
+		fmt.Fprintf(w, "<span foreground=\"#%02X%02X%02X\">", rgb.R, rgb.G, rgb.B)
+
 		closers = append(closers, "</span>")
 	}
 
-	if r, g, b, _ := td.BackColor.RGBA(); r != 0 || g != 0 || b != 0 {
-		data = fmt.Appendf(data, "<span background=\\\"#%02X%02X%02X\\\">", r, g, b)
+	if rgb, ok := textColor(td.BackColor); ok {
+		fmt.Fprintf(w, "<span background=\"#%02X%02X%02X\">", rgb.R, rgb.G, rgb.B)
+
 		closers = append(closers, "</span>")
 	}
 
 	if td.Font != "Sans" {
-		data = fmt.Appendf(data, "<span font=%q>", td.Font)
+		if !isXMLText(td.Font) {
+			return false
+		}
+
+		w.WriteString("<span font=\"")
+		xml.EscapeText(w, []byte(td.Font))
+		w.WriteString("\">")
+
 		closers = append(closers, "</span>")
 	}
 
 	if td.Bold {
-		data = append(data, "<b>"...)
+		w.WriteString("<b>")
+
 		closers = append(closers, "</b>")
 	}
 
 	if td.Italic {
-		data = append(data, "<i>"...)
+		w.WriteString("<i>")
+
 		closers = append(closers, "</i>")
 	}
 
 	if td.Underline {
-		data = append(data, "<u>"...)
+		w.WriteString("<u>")
+
 		closers = append(closers, "</u>")
 	}
 
 	if td.Strikethrough {
-		data = append(data, "<s>"...)
+		w.WriteString("<s>")
+
 		closers = append(closers, "</s>")
 	}
 
 	if td.LetterSpacing != 0 {
-		data = fmt.Appendf(data, "<span letter_spacing=\\\"%d\\\">", td.LetterSpacing<<10)
+		fmt.Fprintf(w, "<span letter_spacing=\"%d\">", uint64(td.LetterSpacing)<<10)
+
 		closers = append(closers, "</span>")
 	}
 
 	if td.Size != 18 {
-		data = fmt.Appendf(data, "<span size=\\\"%d\\\">", td.Size<<10)
+		fmt.Fprintf(w, "<span size=\"%d\">", uint64(td.Size)<<10)
+
 		closers = append(closers, "</span>")
 	}
 
 	if td.Rise != 0 {
-		data = fmt.Appendf(data, "<span rise=\\\"%d\\\">", td.Rise<<10)
+		fmt.Fprintf(w, "<span rise=\"%d\">", uint64(td.Rise)<<10)
+
 		closers = append(closers, "</span>")
 	}
 
-	data = fmt.Appendf(data, "%q", html.EscapeString(td.Data))
+	if !isXMLText(td.Data) {
+		return false
+	}
+
+	xml.EscapeText(w, []byte(td.Data))
 
 	for i := len(closers) - 1; i >= 0; i-- {
-		data = append(data, closers[i]...)
+		w.WriteString(closers[i])
+	}
+
+	return true
+}
+
+// isXMLText reports whether the markup can have all of the characters.
+func isXMLText(s string) bool {
+	for n, r := range s {
+		switch {
+		case r == '\t', r == '\n', r == '\r':
+		case r < ' ', r == 0xfffe, r == 0xffff:
+			return false
+		case r == utf8.RuneError && !strings.HasPrefix(s[n:], "\ufffd"):
+			return false
+		}
 	}
 
-	return data
+	return true
 }
+
+// Errors.
+var (
+	ErrInvalidText = errors.New("styled text has characters that cannot be written")
+)
diff --git a/xcf/writer.go b/xcf/writer.go
index f30e8e4..623ba4f 100644
--- a/xcf/writer.go
+++ b/xcf/writer.go
@@ -34,6 +34,13 @@ func (w writer) WriteAt(p []byte, off int64) (int, error) {
 	return n, w.Err
 }
 
+// SetError sets the error, if there is none yet.
+func (w writer) SetError(err error) {
+	if w.Err == nil {
+		w.Err = err
+	}
+}
+
 func (w writer) Write(p []byte) {
 	w.StickyBigEndianWriter.Write(p)
 }
-- 
2.43.0


From bad153b4e9502bd84104580700df4a56f5353f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:38 +0000
Subject: [PATCH 59/74] fix: xcf: report short writes

---
 xcf/writer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xcf/writer.go b/xcf/writer.go
index 623ba4f..97fc56d 100644
--- a/xcf/writer.go
+++ b/xcf/writer.go
@@ -102,6 +102,10 @@ func (w *writerAtWriter) Write(p []byte) (int, error) {
 	n, err := w.WriteAt(p, w.pos)
 	w.pos += int64(n)
 
+	if n < len(p) && err == nil {
+		err = io.ErrShortWrite
+	}
+
 	return n, err
 }
 
-- 
2.43.0


From 57336ee2a36c2391bc93c24e4ebd8fac321aefa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:38 +0000
Subject: [PATCH 60/74] fix: xcf: report names that would make the file
 unreadable

---
 xcf/writer.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/xcf/writer.go b/xcf/writer.go
index 97fc56d..c68b796 100644
--- a/xcf/writer.go
+++ b/xcf/writer.go
@@ -3,6 +3,7 @@ package xcf
 import (
 	"errors"
 	"io"
+	"unicode/utf8"
 
 	"vimagination.zapto.org/byteio"
 )
@@ -46,6 +47,16 @@ func (w writer) Write(p []byte) {
 }
 
 func (w writer) WriteString(str string) {
+	if len(str) >= maxString {
+		w.SetError(ErrStringTooLong)
+
+		return
+	} else if !utf8.ValidString(str) {
+		w.SetError(ErrInvalidString)
+
+		return
+	}
+
 	w.WriteUint32(uint32(len(str)) + 1)
 	w.Write([]byte(str))
 	w.WriteUint8(0)
-- 
2.43.0


From 94e20d14eea7bace750b3564530040810a3ee0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:39 +0000
Subject: [PATCH 61/74] fix: xcf: report files that would be too large for
 their pointers

---
 xcf/image_encode.go | 19 ++++++++++++++++++-
 xcf/layer_encode.go |  6 +++---
 xcf/writer.go       |  9 ++++++---
 3 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/xcf/image_encode.go b/xcf/image_encode.go
index 0d58042..41999a1 100644
--- a/xcf/image_encode.go
+++ b/xcf/image_encode.go
@@ -3,6 +3,7 @@ package xcf
 import (
 	"image"
 	"image/color"
+	"math"
 
 	"vimagination.zapto.org/limage/lcolor"
 )
@@ -27,6 +28,12 @@ func (e *encoder) WriteImage(im image.Image, colourFunc colourBufFunc, colourCha
 	e.WriteUint32(uint32(dx))
 	e.WriteUint32(uint32(dy))
 
+	if dx > math.MaxUint32 || dy > math.MaxUint32 {
+		e.SetError(ErrTooBig)
+
+		return
+	}
+
 	nx := dx >> 6 // each tile is 64 wide
 	ny := dy >> 6 // each tile is 64 high
 
@@ -38,12 +45,22 @@ func (e *encoder) WriteImage(im image.Image, colourFunc colourBufFunc, colourCha
 		ny++
 	}
 
+	if e.pos+4*nx*ny > math.MaxUint32 {
+		e.SetError(ErrTooBig)
+
+		return
+	}
+
 	w := e.ReservePointerList(uint32(nx * ny))
 
 	// Tiles
 
 	for y := bounds.Min.Y; y < bounds.Max.Y; y += 64 {
 		for x := bounds.Min.X; x < bounds.Max.X; x += 64 {
+			if e.Err != nil {
+				return
+			}
+
 			l := uint16(0)
 
 			for j := y; j < y+64 && j < bounds.Max.Y; j++ {
@@ -58,7 +75,7 @@ func (e *encoder) WriteImage(im image.Image, colourFunc colourBufFunc, colourCha
 				}
 			}
 
-			w.WritePointer(uint32(e.pos))
+			w.WritePointer(e.pos)
 
 			for n := uint8(0); n < colourChannels; n++ {
 				e.WriteRLE(e.channelBuf[n][:l])
diff --git a/xcf/layer_encode.go b/xcf/layer_encode.go
index 22c49e2..340f1a5 100644
--- a/xcf/layer_encode.go
+++ b/xcf/layer_encode.go
@@ -15,7 +15,7 @@ func (e *encoder) WriteLayers(layers limage.Image, offsetX, offsetY int32, group
 }
 
 func (e *encoder) WriteLayer(im limage.Layer, offsetX, offsetY int32, groups []uint32, pw *pointerWriter) {
-	pw.WritePointer(uint32(e.pos))
+	pw.WritePointer(e.pos)
 
 	var (
 		mask  *image.Gray
@@ -189,12 +189,12 @@ func modeID(mode limage.Composite) uint32 {
 func writeLayer(e *encoder, img image.Image, mask *image.Gray) {
 	ptrs := e.ReservePointers(2)
 
-	ptrs.WritePointer(uint32(e.pos))
+	ptrs.WritePointer(e.pos)
 
 	e.WriteImage(img, e.colourFunc, e.colourChannels)
 
 	if mask != nil {
-		ptrs.WritePointer(uint32(e.pos))
+		ptrs.WritePointer(e.pos)
 		e.WriteChannel(mask)
 	} else {
 		ptrs.WritePointer(0)
diff --git a/xcf/writer.go b/xcf/writer.go
index c68b796..af5a7b1 100644
--- a/xcf/writer.go
+++ b/xcf/writer.go
@@ -3,6 +3,7 @@ package xcf
 import (
 	"errors"
 	"io"
+	"math"
 	"unicode/utf8"
 
 	"vimagination.zapto.org/byteio"
@@ -68,9 +69,11 @@ type pointerWriter struct {
 	obw     *byteio.StickyBigEndianWriter
 }
 
-func (p *pointerWriter) WritePointer(ptr uint32) {
-	if p.toWrite > 0 {
-		p.bw.WriteUint32(ptr)
+func (p *pointerWriter) WritePointer(ptr int64) {
+	if ptr > math.MaxUint32 {
+		p.obw.Err = ErrTooBig
+	} else if p.toWrite > 0 {
+		p.bw.WriteUint32(uint32(ptr))
 		p.toWrite--
 
 		if p.bw.Err != nil {
-- 
2.43.0


From f2af583ac6f83ed9ba53b184a64c268e51fa3e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:40 +0000
Subject: [PATCH 62/74] fix: xcf: write images by their bounds, and of layers
 just what they show

---
 xcf/channel.go      | 10 ++++-----
 xcf/encoder.go      | 54 +++++++++++++++++++++++++++++++--------------
 xcf/image_encode.go |  5 +++--
 xcf/layer_encode.go | 34 +++++++++++++++++-----------
 4 files changed, 66 insertions(+), 37 deletions(-)

diff --git a/xcf/channel.go b/xcf/channel.go
index c67706a..6f44317 100644
--- a/xcf/channel.go
+++ b/xcf/channel.go
@@ -53,16 +53,14 @@ func (d *decoder) skipProperties() {
 	}
 }
 
-func (e *encoder) WriteChannel(c *image.Gray) {
-	b := c.Bounds()
-
-	e.WriteUint32(uint32(b.Dx()))
-	e.WriteUint32(uint32(b.Dy()))
+func (e *encoder) WriteChannel(c *image.Gray, size image.Point) {
+	e.WriteUint32(uint32(size.X))
+	e.WriteUint32(uint32(size.Y))
 	e.WriteString("")
 
 	e.WriteUint32(0) // No properties
 	e.WriteUint32(0)
 
 	e.WriteUint32(uint32(e.pos) + 4) // hptr
-	e.WriteImage(c, (*encoder).grayToBuf, 1)
+	e.WriteImage(c, size, (*encoder).grayToBuf, 1)
 }
diff --git a/xcf/encoder.go b/xcf/encoder.go
index 2a3e9b2..704e51b 100644
--- a/xcf/encoder.go
+++ b/xcf/encoder.go
@@ -27,13 +27,29 @@ type encoder struct {
 
 // Encode encodes the given image as an XCF file to the given WriterAt.
 func Encode(w io.WriterAt, im image.Image) error {
-	switch imt := im.(type) {
+	b := im.Bounds()
+	if b.Empty() {
+		b = image.Rectangle{Min: b.Min, Max: b.Min}
+	}
+
+	var layers limage.Image
+
+	switch im := im.(type) {
+	case limage.Image:
+		layers = im
 	case *limage.Image:
-		im = *imt
+		layers = *im
 	case limage.Layer:
-		im = limage.Image{imt}
+		layers = limage.Image{im}
 	case *limage.Layer:
-		im = limage.Image{*imt}
+		layers = limage.Image{*im}
+	default:
+		layers = limage.Image{
+			{
+				LayerBounds: b,
+				Image:       window{Image: im, area: b},
+			},
+		}
 	}
 
 	e := encoder{
@@ -42,8 +58,6 @@ func Encode(w io.WriterAt, im image.Image) error {
 
 	e.Write(header)
 
-	b := im.Bounds()
-
 	e.WriteUint32(uint32(b.Dx()))
 	e.WriteUint32(uint32(b.Dy()))
 
@@ -95,22 +109,30 @@ func Encode(w io.WriterAt, im image.Image) error {
 	e.WriteUint32(0)
 	e.WriteUint32(0)
 
-	switch im := im.(type) {
-	case limage.Image:
-		pw := e.ReservePointerList(layerCount(im))
+	pw := e.ReservePointerList(layerCount(layers))
 
-		e.WriteUint32(0) // no channels
-		e.WriteLayers(im, 0, 0, make([]uint32, 0, 32), pw)
-	default:
-		pw := e.ReservePointerList(1)
+	e.WriteUint32(0) // no channels
 
-		e.WriteUint32(0) // no channels
-		e.WriteLayer(limage.Layer{Image: im}, 0, 0, []uint32{}, pw)
-	}
+	// The corner of the canvas is the origin.
+	e.WriteLayers(layers, -b.Min.X, -b.Min.Y, make([]uint32, 0, 32), pw)
 
 	return e.Err
 }
 
+// window shows an area of an image, the corner of which is at the origin.
+type window struct {
+	image.Image
+	area image.Rectangle
+}
+
+func (w window) Bounds() image.Rectangle {
+	return image.Rectangle{Max: w.area.Size()}
+}
+
+func (w window) At(x, y int) color.Color {
+	return w.Image.At(w.area.Min.X+x, w.area.Min.Y+y)
+}
+
 func layerCount(g limage.Image) uint32 {
 	count := uint32(len(g))
 
diff --git a/xcf/image_encode.go b/xcf/image_encode.go
index 41999a1..72ad428 100644
--- a/xcf/image_encode.go
+++ b/xcf/image_encode.go
@@ -8,8 +8,9 @@ import (
 	"vimagination.zapto.org/limage/lcolor"
 )
 
-func (e *encoder) WriteImage(im image.Image, colourFunc colourBufFunc, colourChannels uint8) {
-	bounds := im.Bounds()
+// WriteImage writes the area of the image that a layer of the given size shows.
+func (e *encoder) WriteImage(im image.Image, size image.Point, colourFunc colourBufFunc, colourChannels uint8) {
+	bounds := image.Rectangle{Max: size}
 
 	dx := int64(bounds.Dx())
 	dy := int64(bounds.Dy())
diff --git a/xcf/layer_encode.go b/xcf/layer_encode.go
index 340f1a5..97d137c 100644
--- a/xcf/layer_encode.go
+++ b/xcf/layer_encode.go
@@ -6,15 +6,15 @@ import (
 	"vimagination.zapto.org/limage"
 )
 
-func (e *encoder) WriteLayers(layers limage.Image, offsetX, offsetY int32, groups []uint32, pw *pointerWriter) {
+func (e *encoder) WriteLayers(layers limage.Image, offsetX, offsetY int, groups []uint32, pw *pointerWriter) {
 	for n, layer := range layers {
 		nGroups := append(groups, uint32(n))
 
-		e.WriteLayer(layer, offsetX+int32(layer.LayerBounds.Min.X), offsetY+int32(layer.LayerBounds.Min.Y), nGroups, pw)
+		e.WriteLayer(layer, offsetX+layer.LayerBounds.Min.X, offsetY+layer.LayerBounds.Min.Y, nGroups, pw)
 	}
 }
 
-func (e *encoder) WriteLayer(im limage.Layer, offsetX, offsetY int32, groups []uint32, pw *pointerWriter) {
+func (e *encoder) WriteLayer(im limage.Layer, offsetX, offsetY int, groups []uint32, pw *pointerWriter) {
 	pw.WritePointer(e.pos)
 
 	var (
@@ -45,18 +45,26 @@ func (e *encoder) WriteLayer(im limage.Layer, offsetX, offsetY int32, groups []u
 		group = *i
 	}
 
-	writeProperties(e, im, offsetX, offsetY, groups, group, text)
+	size := im.LayerBounds.Size()
+	if im.LayerBounds.Empty() {
+		size = image.Point{}
+	}
+
+	writeProperties(e, im, size, offsetX, offsetY, groups, group, text)
 	e.WriteUint32(0)
-	writeLayer(e, img, mask)
+	writeLayer(e, img, mask, size)
 
 	if group != nil {
 		e.WriteLayers(group, offsetX, offsetY, groups, pw)
 	}
 }
 
-func writeProperties(e *encoder, im limage.Layer, offsetX, offsetY int32, groups []uint32, group limage.Image, text limage.TextData) {
-	b := im.Bounds()
-	dx, dy := uint32(b.Dx()), uint32(b.Dy())
+func writeProperties(e *encoder, im limage.Layer, size image.Point, offsetX, offsetY int, groups []uint32, group limage.Image, text limage.TextData) {
+	if int(int32(offsetX)) != offsetX || int(int32(offsetY)) != offsetY {
+		e.SetError(ErrTooBig)
+	}
+
+	dx, dy := uint32(size.X), uint32(size.Y)
 
 	e.WriteUint32(dx)
 	e.WriteUint32(dy)
@@ -78,8 +86,8 @@ func writeProperties(e *encoder, im limage.Layer, offsetX, offsetY int32, groups
 
 	e.WriteUint32(propOffsets)
 	e.WriteUint32(8)
-	e.WriteInt32(offsetX)
-	e.WriteInt32(offsetY)
+	e.WriteInt32(int32(offsetX))
+	e.WriteInt32(int32(offsetY))
 
 	if len(groups) > 1 {
 		e.WriteUint32(propItemPath)
@@ -186,16 +194,16 @@ func modeID(mode limage.Composite) uint32 {
 	}
 }
 
-func writeLayer(e *encoder, img image.Image, mask *image.Gray) {
+func writeLayer(e *encoder, img image.Image, mask *image.Gray, size image.Point) {
 	ptrs := e.ReservePointers(2)
 
 	ptrs.WritePointer(e.pos)
 
-	e.WriteImage(img, e.colourFunc, e.colourChannels)
+	e.WriteImage(img, size, e.colourFunc, e.colourChannels)
 
 	if mask != nil {
 		ptrs.WritePointer(e.pos)
-		e.WriteChannel(mask)
+		e.WriteChannel(mask, size)
 	} else {
 		ptrs.WritePointer(0)
 	}
-- 
2.43.0


From afe330255e0d129df1b90026199b496ee4587e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:19 +0000
Subject: [PATCH 63/74] fix: xcf: write the text, and the layers, of masked
 layers

A mask hid that the layer was text or a group, so that the text was lost and
the layers were replaced by their picture. Text that is empty is text, too.
---
 xcf/encoder.go      |  7 +---
 xcf/layer_encode.go | 94 ++++++++++++++++++++++++++++-----------------
 2 files changed, 61 insertions(+), 40 deletions(-)

diff --git a/xcf/encoder.go b/xcf/encoder.go
index 704e51b..d557247 100644
--- a/xcf/encoder.go
+++ b/xcf/encoder.go
@@ -137,11 +137,8 @@ func layerCount(g limage.Image) uint32 {
 	count := uint32(len(g))
 
 	for _, l := range g {
-		switch g := l.Image.(type) {
-		case limage.Image:
-			count += layerCount(g)
-		case *limage.Image:
-			count += layerCount(*g)
+		if c := unwrap(l.Image); c.isGroup {
+			count += layerCount(c.group)
 		}
 	}
 
diff --git a/xcf/layer_encode.go b/xcf/layer_encode.go
index 97d137c..a3c1b33 100644
--- a/xcf/layer_encode.go
+++ b/xcf/layer_encode.go
@@ -17,49 +17,73 @@ func (e *encoder) WriteLayers(layers limage.Image, offsetX, offsetY int, groups
 func (e *encoder) WriteLayer(im limage.Layer, offsetX, offsetY int, groups []uint32, pw *pointerWriter) {
 	pw.WritePointer(e.pos)
 
-	var (
-		mask  *image.Gray
-		img   image.Image
-		text  limage.TextData
-		group limage.Image
-	)
-
-	if mim, ok := im.Image.(limage.MaskedImage); ok {
-		mask = mim.Mask
-		img = mim.Image
-	} else if mim, ok := im.Image.(*limage.MaskedImage); ok {
-		mask = mim.Mask
-		img = mim.Image
-	} else {
-		img = im.Image
-	}
-
-	switch i := im.Image.(type) {
-	case limage.Text:
-		text = i.TextData
-	case *limage.Text:
-		text = i.TextData
-	case limage.Image:
-		group = i
-	case *limage.Image:
-		group = *i
-	}
+	c := unwrap(im.Image)
 
 	size := im.LayerBounds.Size()
 	if im.LayerBounds.Empty() {
 		size = image.Point{}
 	}
 
-	writeProperties(e, im, size, offsetX, offsetY, groups, group, text)
+	writeProperties(e, im, size, offsetX, offsetY, groups, c)
 	e.WriteUint32(0)
-	writeLayer(e, img, mask, size)
+	writeLayer(e, c.Image, c.mask, size)
+
+	if c.isGroup {
+		e.WriteLayers(c.group, offsetX, offsetY, groups, pw)
+	}
+}
+
+// content is what a layer consists of.
+type content struct {
+	image.Image
+	mask            *image.Gray
+	text            limage.TextData
+	group           limage.Image
+	isText, isGroup bool
+}
+
+// unwrap separates the image of a layer, which is text, a group, or neither,
+// from its mask.
+func unwrap(im image.Image) content {
+	c := content{Image: im}
+
+	for {
+		switch i := c.Image.(type) {
+		case *limage.MaskedImage:
+			c.Image = *i
+
+			continue
+		case *limage.Text:
+			c.Image = *i
+
+			continue
+		case *limage.Image:
+			c.Image = *i
+
+			continue
+		case limage.MaskedImage:
+			if c.mask == nil {
+				c.Image, c.mask = i.Image, i.Mask
+
+				continue
+			}
+		case limage.Text:
+			if !c.isText {
+				c.Image, c.text, c.isText = i.Image, i.TextData, true
+
+				continue
+			}
+		case limage.Image:
+			if !c.isText {
+				c.group, c.isGroup = i, true
+			}
+		}
 
-	if group != nil {
-		e.WriteLayers(group, offsetX, offsetY, groups, pw)
+		return c
 	}
 }
 
-func writeProperties(e *encoder, im limage.Layer, size image.Point, offsetX, offsetY int, groups []uint32, group limage.Image, text limage.TextData) {
+func writeProperties(e *encoder, im limage.Layer, size image.Point, offsetX, offsetY int, groups []uint32, c content) {
 	if int(int32(offsetX)) != offsetX || int(int32(offsetY)) != offsetY {
 		e.SetError(ErrTooBig)
 	}
@@ -98,11 +122,11 @@ func writeProperties(e *encoder, im limage.Layer, size image.Point, offsetX, off
 		}
 	}
 
-	if len(text) > 0 {
-		e.WriteText(text, dx, dy)
+	if c.isText {
+		e.WriteText(c.text, dx, dy)
 	}
 
-	if group != nil {
+	if c.isGroup {
 		e.WriteUint32(propGroupItem)
 		e.WriteUint32(0)
 	}
-- 
2.43.0


From f490842af1955f151e3a4622b2be28106bdb2edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:20 +0000
Subject: [PATCH 64/74] fix: xcf: write the luminance mode

It was written as normal, and luminosity as color erase.
---
 xcf/layer_encode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xcf/layer_encode.go b/xcf/layer_encode.go
index a3c1b33..ed8d069 100644
--- a/xcf/layer_encode.go
+++ b/xcf/layer_encode.go
@@ -185,8 +185,8 @@ func modeID(mode limage.Composite) uint32 {
 		return 20
 	case limage.CompositeGrainMerge:
 		return 21
-	case limage.CompositeLuminosity:
-		return 22
+	case limage.CompositeLuminance, limage.CompositeLuminosity:
+		return 56
 	case limage.CompositeColorErase:
 		return 22
 	case limage.CompositeChroma:
-- 
2.43.0


From 52d1d6afa2ba5e55260d70d209a497605411a492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:09 +0000
Subject: [PATCH 65/74] fix: xcf: kind and colors of the images written

The first layer decided for all of them: the colors of later ones were lost.
Palettes can also be too large, or have no colors, for the format, colors that
are partly transparent were looked up in the palette darkened, and images may
have no color outside of their bounds.
---
 xcf/encoder.go      | 109 ++++++++++++++++++++++++++++++++++++--------
 xcf/image_encode.go |  48 +++++++++++++++++--
 2 files changed, 132 insertions(+), 25 deletions(-)

diff --git a/xcf/encoder.go b/xcf/encoder.go
index d557247..504322b 100644
--- a/xcf/encoder.go
+++ b/xcf/encoder.go
@@ -17,6 +17,7 @@ type encoder struct {
 	writer
 
 	colourPalette  lcolor.AlphaPalette
+	colourIndex    map[lcolor.RGB]uint8
 	colourFunc     colourBufFunc
 	colourType     uint8
 	colourChannels uint8
@@ -61,29 +62,23 @@ func Encode(w io.WriterAt, im image.Image) error {
 	e.WriteUint32(uint32(b.Dx()))
 	e.WriteUint32(uint32(b.Dy()))
 
-	switch cm := im.ColorModel(); cm {
-	case color.GrayModel, color.Gray16Model, lcolor.GrayAlphaModel:
+	var models []color.Model
+
+	if models = leafModels(models, layers); allGray(models) {
 		e.colourType = 1
 		e.colourFunc = (*encoder).grayAlphaToBuf
 		e.colourChannels = 2
-	default:
-		switch m := cm.(type) {
-		case color.Palette:
-			e.colourPalette = lcolor.AlphaPalette(m)
-			e.colourType = 2
-			e.colourFunc = (*encoder).paletteAlphaToBuf
-			e.colourChannels = 2
-		case lcolor.AlphaPalette:
-			e.colourPalette = m
-			e.colourType = 2
-			e.colourFunc = (*encoder).paletteAlphaToBuf
-			e.colourChannels = 2
-		default:
-			e.colourType = 0
-			e.colourFunc = (*encoder).rgbAlphaToBuf
-			e.colourChannels = 4
-		}
+	} else if p := samePalette(models); len(p) > 0 && len(p) <= maxPalette {
+		e.setPalette(p)
+		e.colourType = 2
+		e.colourFunc = (*encoder).paletteAlphaToBuf
+		e.colourChannels = 2
+	} else {
+		e.colourType = 0
+		e.colourFunc = (*encoder).rgbAlphaToBuf
+		e.colourChannels = 4
 	}
+
 	e.WriteUint32(uint32(e.colourType))
 
 	// write property list
@@ -94,7 +89,7 @@ func Encode(w io.WriterAt, im image.Image) error {
 		e.WriteUint32(uint32(len(e.colourPalette)))
 
 		for _, colour := range e.colourPalette {
-			rgb := lcolor.RGBModel.Convert(colour).(lcolor.RGB)
+			rgb := colour.(lcolor.RGB)
 
 			e.WriteUint8(rgb.R)
 			e.WriteUint8(rgb.G)
@@ -133,6 +128,80 @@ func (w window) At(x, y int) color.Color {
 	return w.Image.At(w.area.Min.X+x, w.area.Min.Y+y)
 }
 
+// leafModels adds the color models of all of the layers, except for groups,
+// which have those of their layers.
+func leafModels(models []color.Model, layers limage.Image) []color.Model {
+	for _, l := range layers {
+		c := unwrap(l.Image)
+
+		switch im := c.Image.(type) {
+		case limage.Image:
+			models = leafModels(models, im)
+		case limage.Layer:
+			models = leafModels(models, limage.Image{im})
+		case *limage.Layer:
+			models = leafModels(models, limage.Image{*im})
+		default:
+			models = append(models, im.ColorModel())
+		}
+	}
+
+	return models
+}
+
+// allGray reports whether there are color models, and all of them are gray.
+func allGray(models []color.Model) bool {
+	for _, m := range models {
+		switch m {
+		case color.GrayModel, color.Gray16Model, lcolor.GrayAlphaModel:
+		default:
+			return false
+		}
+	}
+
+	return len(models) > 0
+}
+
+// samePalette returns the palette that all of the color models have, if any.
+func samePalette(models []color.Model) lcolor.AlphaPalette {
+	var palette lcolor.AlphaPalette
+
+	for n, m := range models {
+		var p lcolor.AlphaPalette
+
+		switch m := m.(type) {
+		case color.Palette:
+			p = lcolor.AlphaPalette(m)
+		case lcolor.AlphaPalette:
+			p = m
+		default:
+			return nil
+		}
+
+		if n == 0 {
+			palette = p
+		} else if !samePalettes(palette, p) {
+			return nil
+		}
+	}
+
+	return palette
+}
+
+func samePalettes(p, q lcolor.AlphaPalette) bool {
+	if len(p) != len(q) {
+		return false
+	}
+
+	for n, c := range p {
+		if toNRGBA(c) != toNRGBA(q[n]) {
+			return false
+		}
+	}
+
+	return true
+}
+
 func layerCount(g limage.Image) uint32 {
 	count := uint32(len(g))
 
diff --git a/xcf/image_encode.go b/xcf/image_encode.go
index 72ad428..6f9752a 100644
--- a/xcf/image_encode.go
+++ b/xcf/image_encode.go
@@ -5,6 +5,7 @@ import (
 	"image/color"
 	"math"
 
+	"vimagination.zapto.org/limage/internal"
 	"vimagination.zapto.org/limage/lcolor"
 )
 
@@ -86,7 +87,7 @@ func (e *encoder) WriteImage(im image.Image, size image.Point, colourFunc colour
 }
 
 func (e *encoder) rgbAlphaToBuf(c color.Color) {
-	rgba := color.NRGBAModel.Convert(c).(color.NRGBA)
+	rgba := toNRGBA(c)
 	e.colourBuf[0] = rgba.R
 	e.colourBuf[1] = rgba.G
 	e.colourBuf[2] = rgba.B
@@ -94,6 +95,10 @@ func (e *encoder) rgbAlphaToBuf(c color.Color) {
 }
 
 func (e *encoder) grayAlphaToBuf(c color.Color) {
+	if c == nil {
+		c = lcolor.GrayAlpha{}
+	}
+
 	ga := lcolor.GrayAlphaModel.Convert(c).(lcolor.GrayAlpha)
 	e.colourBuf[0] = ga.Y
 	e.colourBuf[1] = ga.A
@@ -104,8 +109,41 @@ func (e *encoder) grayToBuf(c color.Color) {
 }
 
 func (e *encoder) paletteAlphaToBuf(c color.Color) {
-	r, g, b, a := c.RGBA()
-	i := e.colourPalette.Index(lcolor.RGB{R: uint8(r), G: uint8(g), B: uint8(b)})
-	e.colourBuf[0] = uint8(i)
-	e.colourBuf[1] = uint8(a)
+	n := toNRGBA(c)
+	rgb := lcolor.RGB{R: n.R, G: n.G, B: n.B}
+
+	i, ok := e.colourIndex[rgb]
+	if !ok {
+		i = uint8(e.colourPalette.Index(rgb))
+	}
+
+	e.colourBuf[0] = i
+	e.colourBuf[1] = n.A
+}
+
+// setPalette sets the colours of the palette, which do not have alpha.
+func (e *encoder) setPalette(p lcolor.AlphaPalette) {
+	e.colourPalette = make(lcolor.AlphaPalette, len(p))
+	e.colourIndex = make(map[lcolor.RGB]uint8, len(p))
+
+	for n, c := range p {
+		nrgba := toNRGBA(c)
+		rgb := lcolor.RGB{R: nrgba.R, G: nrgba.G, B: nrgba.B}
+		e.colourPalette[n] = rgb
+
+		if _, ok := e.colourIndex[rgb]; !ok {
+			e.colourIndex[rgb] = uint8(n)
+		}
+	}
+}
+
+// toNRGBA converts the colour without the loss of that which is seen through.
+func toNRGBA(c color.Color) color.NRGBA {
+	if c == nil {
+		return color.NRGBA{}
+	}
+
+	n := internal.ColourToNRGBA(c)
+
+	return color.NRGBA{R: uint8(n.R >> 8), G: uint8(n.G >> 8), B: uint8(n.B >> 8), A: uint8(n.A >> 8)}
 }
-- 
2.43.0


From a139a25755bb8796853224794954238cebd35a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:37 +0000
Subject: [PATCH 66/74] fix: xcf: a second property with parasites hid those of
 the first

---
 xcf/layer_decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcf/layer_decode.go b/xcf/layer_decode.go
index 8e3e50b..2647595 100644
--- a/xcf/layer_decode.go
+++ b/xcf/layer_decode.go
@@ -103,7 +103,7 @@ PropertyLoop:
 
 			l.Transparency = 255 - uint8(o)
 		case propParasites:
-			parasites = d.ReadParasites(plength)
+			parasites = append(parasites, d.ReadParasites(plength)...)
 		case propTattoo:
 			d.SkipUint32()
 		case propVisible:
-- 
2.43.0


From bd07d04998aae16ca5d474a9036ac9b4b6d098da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:32 +0000
Subject: [PATCH 67/74] fix: xcf: a parasite without a name was taken for one
 byte more

---
 xcf/parasites.go | 8 +++-----
 xcf/reader.go    | 7 +++++++
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/xcf/parasites.go b/xcf/parasites.go
index 90bcb00..3146cf8 100644
--- a/xcf/parasites.go
+++ b/xcf/parasites.go
@@ -39,13 +39,11 @@ func (d *reader) ReadParasites(l uint32) parasites {
 	for l > 0 && d.Err == nil {
 		var p parasite
 
-		p.name = d.ReadString()
+		start := d.pos()
+		p.name = d.ReadString() // an empty one may be without the \0
 		p.flags = d.ReadUint32()
 		pplength := d.ReadUint32()
-		read := 4 + uint64(len(p.name)) + 1 // length (uint32) + string([]byte) + \0 (byte)
-		read += 4                           // flags
-		read += 4                           // pplength
-		read += uint64(pplength)            // len(data)
+		read := uint64(d.pos()-start) + uint64(pplength)
 
 		if read > uint64(l) {
 			d.SetError(ErrInvalidParasites)
diff --git a/xcf/reader.go b/xcf/reader.go
index 87d10cb..4bb4801 100644
--- a/xcf/reader.go
+++ b/xcf/reader.go
@@ -108,6 +108,13 @@ func (r *reader) Goto(n uint64) {
 	}
 }
 
+// pos returns the position in the file.
+func (r *reader) pos() int64 {
+	n, _ := r.rs.Seek(0, io.SeekCurrent)
+
+	return n
+}
+
 func (r *reader) SetError(err error) {
 	if r.Err == nil {
 		r.Err = err
-- 
2.43.0


From 59fe9bacb6e3678520b10ceb1ba7aec87366b6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:20 +0000
Subject: [PATCH 68/74] fix: xcf: half of the end of the tiles was not looked
 at in files with long pointers

---
 xcf/image_decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcf/image_decode.go b/xcf/image_decode.go
index d51e532..b944ddc 100644
--- a/xcf/image_decode.go
+++ b/xcf/image_decode.go
@@ -35,7 +35,7 @@ func (d *decoder) ReadImage(width, height, mode uint32) image.Image {
 
 	tiles := d.readTiles(width, height)
 
-	if d.ReadUint32() != 0 {
+	if d.readLayerPointer() != 0 {
 		d.SetError(ErrInconsistantData)
 	}
 
-- 
2.43.0


From a0ed1aa965384324344bd720c533d32cf03820dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:20 +0000
Subject: [PATCH 69/74] fix: images with empty palettes panicked when composed
 or written as ORA

---
 internal/nrgba.go |  4 ++++
 ora/encode.go     | 27 ++++++++++++++++++++++++++-
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/internal/nrgba.go b/internal/nrgba.go
index 6ba652b..aa4a0a2 100644
--- a/internal/nrgba.go
+++ b/internal/nrgba.go
@@ -2,8 +2,12 @@ package internal
 
 import "image/color"
 
+// ColourToNRGBA converts the colour without the loss of that which is seen
+// through. There is no colour in images with empty palettes.
 func ColourToNRGBA(c color.Color) color.NRGBA64 {
 	switch c := c.(type) {
+	case nil:
+		return color.NRGBA64{}
 	case color.NRGBA:
 		var d color.NRGBA64
 
diff --git a/ora/encode.go b/ora/encode.go
index ae334a2..fc082f3 100644
--- a/ora/encode.go
+++ b/ora/encode.go
@@ -10,6 +10,7 @@ import (
 	"strconv"
 
 	"vimagination.zapto.org/limage"
+	"vimagination.zapto.org/limage/lcolor"
 )
 
 const mimetypeStr = "image/openraster"
@@ -154,8 +155,24 @@ func writeImage(e *xml.Encoder, zw *zip.Writer, m image.Image, lim limage.Layer)
 }
 
 // encodePNG writes the image with its alpha channel, which the gray color models
-// do not have, but masked or composed images that use these models do.
+// do not have, but masked or composed images that use these models do. Images
+// with empty palettes have no colours.
 func encodePNG(w io.Writer, m image.Image) error {
+	var colours int
+
+	switch p := m.ColorModel().(type) {
+	case color.Palette:
+		colours = len(p)
+	case lcolor.AlphaPalette:
+		colours = len(p)
+	default:
+		colours = -1
+	}
+
+	if colours == 0 {
+		return png.Encode(w, modelled{Image: m, model: color.NRGBAModel})
+	}
+
 	switch m.(type) {
 	case *image.Gray, *image.Gray16:
 	default:
@@ -179,6 +196,14 @@ func (m modelled) ColorModel() color.Model {
 	return m.model
 }
 
+func (m modelled) At(x, y int) color.Color {
+	if c := m.Image.At(x, y); c != nil {
+		return c
+	}
+
+	return color.NRGBA{}
+}
+
 func writeLayers(zw *zip.Writer, lim limage.Layer, layerNum int) (int, error) {
 	var (
 		err error
-- 
2.43.0


From f92ea1a262eab030f747e9cfcde2910cba99844e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:45 +0000
Subject: [PATCH 70/74] fix: PalettedAlpha.At panicked when the palette was
 empty but not nil

---
 indexedalpha.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indexedalpha.go b/indexedalpha.go
index 5f4a1a9..5bd116d 100644
--- a/indexedalpha.go
+++ b/indexedalpha.go
@@ -29,7 +29,7 @@ func NewPalettedAlpha(r image.Rectangle, p lcolor.AlphaPalette) *PalettedAlpha {
 
 // At returns the color of the pixel at the given coords.
 func (p *PalettedAlpha) At(x, y int) color.Color {
-	if p.Palette == nil {
+	if len(p.Palette) == 0 {
 		return nil
 	}
 
-- 
2.43.0


From c4cd3f1ebf997b73ba7bb3cf4c6c677afa5d3502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:20 +0000
Subject: [PATCH 71/74] fix: negative sizes of ORA images were accepted

---
 ora/decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ora/decode.go b/ora/decode.go
index 7be0a5e..3dbe9b6 100644
--- a/ora/decode.go
+++ b/ora/decode.go
@@ -97,7 +97,7 @@ func (d *decoder) getDimensions() error {
 					}
 				}
 
-				if !w || !h {
+				if !w || !h || d.limits.X < 0 || d.limits.Y < 0 {
 					return ErrInvalidStack
 				}
 
-- 
2.43.0


From 1b0b997b0dd7da36ade6e64e6e67c46d9e233279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:23 +0000
Subject: [PATCH 72/74] fix: an opacity in ORA files that is not a number was
 accepted

---
 ora/stack.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ora/stack.go b/ora/stack.go
index 8edb91a..ad4a166 100644
--- a/ora/stack.go
+++ b/ora/stack.go
@@ -160,6 +160,8 @@ func processLayerAttrs(l *limage.Layer, s xml.StartElement) (string, error) {
 			o, err := strconv.ParseFloat(a.Value, 64)
 			if err != nil {
 				return "", err
+			} else if math.IsNaN(o) {
+				return "", strconv.ErrSyntax
 			}
 
 			l.Transparency = 255 - uint8(math.Round(255*math.Max(0, math.Min(1, o))))
-- 
2.43.0


From b777f43eaea81d630e63c56339c3eb8e688933c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:25 +0000
Subject: [PATCH 73/74] fix: checksums of the entries of ORA files were not
 verified

---
 ora/decode.go | 23 ++++++++++++++++++++++-
 ora/stack.go  |  4 ++++
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/ora/decode.go b/ora/decode.go
index 3dbe9b6..ed36fe1 100644
--- a/ora/decode.go
+++ b/ora/decode.go
@@ -131,6 +131,10 @@ func DecodeConfig(zr *zip.Reader) (image.Config, error) {
 		return image.Config{}, err
 	}
 
+	if err := verify(s); err != nil {
+		return image.Config{}, err
+	}
+
 	s.Close()
 
 	return image.Config{
@@ -185,7 +189,24 @@ func Decode(zr *zip.Reader) (limage.Image, error) {
 		}
 	}
 
-	return d.readStack(image.Point{})
+	i, err := d.readStack(image.Point{})
+	if err != nil {
+		return nil, err
+	}
+
+	if err := verify(s); err != nil {
+		return nil, err
+	}
+
+	return i, nil
+}
+
+// verify reads what is left of an entry of the archive, after which the
+// checksum of the whole of it has been compared.
+func verify(r io.Reader) error {
+	_, err := io.Copy(io.Discard, r)
+
+	return err
 }
 
 // Errors.
diff --git a/ora/stack.go b/ora/stack.go
index ad4a166..f3c6eaa 100644
--- a/ora/stack.go
+++ b/ora/stack.go
@@ -83,6 +83,10 @@ func (d decoder) readLayer(s xml.StartElement, offset image.Point) (limage.Layer
 					return l, err
 				}
 
+				if err := verify(fr); err != nil {
+					return l, err
+				}
+
 				fr.Close()
 
 				break
-- 
2.43.0


From 22d2f00edc085774f816d5f0a6833343229e013f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:35 +0000
Subject: [PATCH 74/74] fix: layers of indexed images with the current number
 of Behind were Normal

---
 xcf/layer_decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcf/layer_decode.go b/xcf/layer_decode.go
index 2647595..c8b9748 100644
--- a/xcf/layer_decode.go
+++ b/xcf/layer_decode.go
@@ -129,7 +129,7 @@ PropertyLoop:
 				switch d.ReadUint32() {
 				case 1:
 					l.Mode = limage.CompositeDissolve
-				case 2: // Behind
+				case 2, 29: // Behind
 					l.Mode = limage.CompositeBehind
 				default:
 					l.Mode = limage.CompositeNormal
-- 
2.43.0

