#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long lines stay reviewable)."""
import json, os

P = []


def prop(id, title, statement, over, quant, why, files, mech, observe):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": quant},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe,
            "hook_needed": None,
        },
    })


prop("C01", "Separable blend modes follow their published formulas on every channel",
     "Compositing with Normal, Behind, Multiply, Screen, Overlay, Difference, Addition, Subtract, Darken Only, Lighten Only, Divide, Dodge, Burn, Hard Light, Soft Light, Grain Extract or Grain Merge gives, up to rounding, the colour that mode's published (GIMP 2.8 / XCF specification) formula gives, applied to red, green and blue independently. "
     "The blended colour is mixed with the bottom colour in proportion to the smaller of the two alphas and the bottom alpha is kept (Normal instead forms the union of the two coverages; Behind leaves the bottom).",
     ["inputs"], "every pair of colours (16-bit channels and alphas) and each of the 17 modes",
     "No stable test composites anything; the input space is 2^128 pairs per mode and the faults sit at boundaries (0, 0x7fff/0x8000, 0xffff) and in cross-channel mix-ups that grey colours hide.",
     ["composite.go", "internal/nrgba.go", "internal/minmax.go"],
     [("per-mode channel functions and the alpha blend", "composite.go")],
     ["Composite.Composite result via RGBA()"])

prop("C02", "Compositing always yields a valid colour and obeys the alpha laws",
     "For every mode (including ones the library does not render specially) and every pair of colours, compositing returns a usable colour whose premultiplied channels do not exceed its alpha, without panicking, and the outcome depends only on the colours, not on which colour type represents them. "
     "Except in the Porter-Duff modes (plus, in, out, atop), which have laws of their own, a fully transparent top leaves the bottom as it was, a fully opaque Normal top replaces it, and a mode other than Normal (or Dissolve, or a mode rendered as Normal) never changes the bottom's alpha and paints nothing on a fully transparent bottom.",
     ["inputs", "configurations"], "every Composite value, every pair of colours in any representation (NRGBA, RGBA, 64-bit, Gray, Alpha, CMYK, YCbCr, HSV/HSL, GrayAlpha, RGB, custom types)",
     "Tests composite no colours; the laws are universally quantified over colours, alphas, modes and color.Color implementations.",
     ["composite.go", "misc.go", "internal/nrgba.go", "lcolor/hsl.go", "lcolor/gray.go"],
     [("ColourToNRGBA normalisation", "internal/nrgba.go"), ("alpha handling of Composite", "composite.go")],
     ["Composite.Composite result via RGBA()"])

prop("C03", "Hue, Saturation, Color, Value and Luminosity modes transfer one component",
     "Hue, Saturation and Value replace only that HSV component of the bottom colour with the top's; Color takes hue and saturation from the top and HSL lightness from the bottom, and Luminosity the reverse; a grey top leaves the bottom unchanged in Hue mode. "
     "As with the other blend modes the replaced colour is mixed with the bottom in proportion to the smaller alpha, and the bottom's alpha is kept.",
     ["inputs"], "every pair of colours with any alphas, and the five modes",
     "Tests do not exercise these modes; the deviations depend on the alphas of both layers and on the hue sector of the colours.",
     ["composite.go", "lcolor/hsl.go"],
     [("compositeHue/Saturation/Color/Value", "composite.go"), ("HSV/HSL conversion", "lcolor/hsl.go")],
     ["Composite.Composite result via RGBA()"])

prop("C04", "Dissolve picks the opaque top colour with probability equal to its alpha",
     "Compositing in Dissolve mode yields, per pixel, either exactly the bottom colour or the top colour made fully opaque, and never anything in between. "
     "A fully transparent top never shows, a fully opaque top always shows, and in between the top is shown with a frequency given by the top's own alpha, whatever the bottom is.",
     ["inputs", "histories"], "every pair of colours; the frequency over repeated evaluations",
     "The result is random, so a single example cannot show it; it needs many evaluations for many alphas of both operands.",
     ["composite.go"], [("compositeDissolve", "composite.go")], ["Composite.Composite result"])

prop("C05", "Porter-Duff modes (plus, in, out, atop) follow the compositing algebra",
     "Plus, Destination In, Destination Out, Source Atop and Destination Atop give the premultiplied colour and alpha that the Porter-Duff operator of that name (as used by SVG/OpenRaster) defines, up to rounding.",
     ["inputs"], "every pair of colours and the five modes",
     "No test covers these modes; the laws quantify over all colours and alphas.",
     ["composite.go"], [("compositePlus/DstIn/DstOut/Atop", "composite.go")], ["Composite.Composite result via RGBA()"])

prop("C06", "HSV and HSL conversions invert each other and match the standard formulas",
     "Converting any colour to HSV or HSL and back gives the same colour and the same alpha, up to rounding error. "
     "The hue, saturation, value and lightness reported agree with the textbook definitions, and every HSV/HSL value, in gamut by construction, converts to the RGB colour the textbook gives.",
     ["inputs"], "every 16-bit RGBA colour and every HSVA/HSLA quadruple",
     "No test touches the conversions; 2^64 inputs with six hue sectors and wrap-around at both ends.",
     ["lcolor/hsl.go"], [("RGBToHSL/RGBToHSV", "lcolor/hsl.go"), ("ToNRGBA", "lcolor/hsl.go")], ["RGBToHSV, RGBToHSL, ToNRGBA, RGBA"])

prop("C07", "Colour models are idempotent and agree with the colours they produce",
     "Converting a colour with the library's RGB, gray-with-alpha or palette-with-alpha model always yields that model's colour; converting a converted colour again changes nothing, and converting a colour which is already representable keeps it (alpha included where the model has one). "
     "Each colour type's premultiplied view (RGBA) and its non-premultiplied view describe the same colour, and a palette with alpha picks the palette entry nearest to the colour itself, independent of the colour's alpha.",
     ["inputs"], "every colour in any representation, every palette of 1 to 256 entries",
     "No test uses the models; alpha-dependent errors need partially transparent colours of specific values.",
     ["lcolor/gray.go", "lcolor/rgb.go", "lcolor/indexed.go", "lcolor/models.go"],
     [("grayAlphaColourModel, rgbColourModel", "lcolor/gray.go, lcolor/rgb.go"), ("AlphaPalette.Convert/Index", "lcolor/indexed.go")],
     ["Convert, Index, RGBA, ToNRGBA"])

prop("C08", "Pixel-buffer images behave as a map from points to colours",
     "For the library's own image types (RGB, gray with alpha, paletted with alpha), reading a pixel gives exactly what was last written there by any setter, seen through the image or any of its overlapping sub-images; writes outside the bounds change nothing and reads outside give the zero pixel. "
     "Opaque reports true exactly when every pixel inside the image's own bounds has full alpha, and a sub-image's bounds are the intersection, keeping its coordinates.",
     ["histories", "inputs"], "every rectangle (also negative or empty) and every sequence of Set, typed setters, SubImage, At, Opaque",
     "No test creates these images; faults need sub-images, strides wider than the rectangle, or partially transparent pixels outside the view.",
     ["rgb.go", "grayalpha.go", "indexedalpha.go"], [("Set/At/SubImage/PixOffset/Opaque", "rgb.go, grayalpha.go, indexedalpha.go")],
     ["At, typed accessors, Opaque, Bounds"])

prop("C09", "A layered image shows the bottom-up composition of its visible layers",
     "The colour of a layered image at any point is the result of starting from transparency and compositing, from the last layer up to the first, every visible layer whose bounds contain the point, using that layer's mode, position and transparency; nested groups are composited first and then treated as one layer. "
     "Invisible layers and layers elsewhere contribute nothing, the image's bounds are the union of its layers' bounds, and in an image whose first layer has a palette of plain colours (a color.Palette), pixels are never half transparent: a layer pixel replaces what is below it when it is more than half opaque and is ignored otherwise.",
     ["inputs", "programs"], "every tree of layers: counts, nesting, bounds, modes, visibility, transparency, colour models",
     "Tests decode but never render layered images; order, clipping, visibility and nesting combine.",
     ["image.go", "layer.go", "misc.go"], [("Image.At, Image.Bounds", "image.go"), ("Layer.At", "layer.go"), ("transparency", "misc.go")],
     ["Image.At, Image.Bounds, Layer.At"])

prop("C10", "Sub-images of layers and layered images show the same pixels",
     "Taking a sub-image of a layer or of a layered image gives an image which extends no further than the requested rectangle intersected with the original bounds (for a layer, exactly as far) and which shows, at every point inside the intersection, the colour the original shows there; repeated sub-images behave like one of the intersected rectangle. "
     "The original is not changed by it.",
     ["inputs", "histories"], "every layer tree, every rectangle and chains of rectangles",
     "Tests never call SubImage; errors appear only when the rectangle's origin differs from the layer's.",
     ["image.go", "layer.go"], [("Layer.SubImage, SubImageLayer", "layer.go"), ("Image.SubImage", "image.go")],
     ["SubImage(...).At versus At"])

prop("C11", "Masks and layer transparency scale alpha only",
     "A masked image shows, at every point, the colour of the underlying image with its alpha multiplied by the mask value there, and a layer shows its image, placed at the layer's position, with its alpha multiplied by one minus the layer's transparency; colour components of visible pixels are not altered. "
     "Full mask or zero transparency leaves pixels exactly unchanged, zero mask or full transparency makes them fully transparent.",
     ["inputs"], "every image, mask value 0..255, transparency 0..255, position",
     "No stable test uses masks or transparency.",
     ["misc.go", "layer.go"], [("transparency", "misc.go"), ("MaskedImage.At", "misc.go"), ("Layer.At", "layer.go")],
     ["MaskedImage.At, Layer.At"])

prop("C12", "ORA encode then decode returns the same layered image",
     "Encoding any layered image whose content lies in the canvas as OpenRaster and decoding it returns the same tree of layers and groups, in order, with the same names, positions, sizes, visibility, opacity and (OpenRaster-expressible) blend mode, and layer pixels equal to the originals. "
     "The decoded image renders the same as the original at every point of the canvas (up to the 8-bit rounding of masks and of premultiplied pixels).",
     ["inputs", "programs"], "every layer tree (nesting, groups with offsets, all opacities, all ORA modes, arbitrary valid XML text names, pixel types)",
     "TestEncode cannot even run here, and samples a handful of trees; nested offsets and opacity need structured generation.",
     ["ora/encode.go", "ora/stack.go", "ora/decode.go"], [("writeStack/readLayer attribute mapping", "ora/encode.go, ora/stack.go")],
     ["ora.Encode then ora.Decode"])

prop("C13", "ORA files written conform to the OpenRaster archive layout",
     "Every file the encoder produces is a ZIP archive whose first entry is an uncompressed 'mimetype' file holding exactly image/openraster, and which contains a well-formed stack.xml whose image element gives the canvas width and height and holds a root stack, a mergedimage.png and a Thumbnails/thumbnail.png. "
     "Every layer element names a PNG present in the archive, offsets/opacity/visibility/composite-op attributes are well-formed and describe the layers given, and no attribute or entry name occurs twice.",
     ["inputs", "programs"], "every encodable image: plain, layered, nested, of any size and position",
     "The tests only read files back with the same library, which shares its mistakes.",
     ["ora/encode.go"], [("Encode, writeStack", "ora/encode.go")], ["bytes written by ora.Encode, parsed independently"])

prop("C14", "ORA merged image and thumbnail show the whole picture",
     "The merged image in an encoded file has the canvas's size and shows at every pixel what the encoded image shows there. "
     "The thumbnail is at most 256 pixels in either direction and at least one, keeps the aspect ratio, is the picture itself when that is small enough, and every thumbnail pixel shows the part of the picture at its own relative position.",
     ["inputs"], "every image size and aspect ratio, including sides above and below 256 and extremely thin ones",
     "No test encodes an image larger than 256 pixels or looks at the thumbnail.",
     ["ora/thumbnail.go", "ora/encode.go"], [("thumbnail.At/Bounds", "ora/thumbnail.go"), ("writeImage", "ora/encode.go")],
     ["mergedimage.png and Thumbnails/thumbnail.png of the archive"])

prop("C15", "ORA files from other programs decode to what they describe",
     "Any valid OpenRaster archive, whoever wrote it, decodes to the layers its stack.xml describes: attributes in any order, unknown attributes, elements, comments and entries ignored, defaults used for missing attributes, offsets of any sign, opacities as decimal fractions, layer positions relative to the enclosing stack, several layers sharing one source, each layer showing the entry with exactly the name it gives, those and only those marked as hidden being invisible, and content outside the canvas clipped without moving the rest. "
     "The reported configuration has the width and height stated in the file.",
     ["inputs", "programs"], "every valid archive generated from the OpenRaster grammar by an independent writer",
     "The stable tests hold a handful of fixed archives.",
     ["ora/decode.go", "ora/stack.go"], [("getStack, getDimensions, readStack, processLayerAttrs", "ora/decode.go, ora/stack.go")],
     ["ora.Decode, ora.DecodeConfig"])

prop("C16", "Malformed ORA input is rejected cleanly, with the documented errors",
     "Whatever bytes the archive holds, decoding returns, in time and memory proportionate to the input and the image sizes it validly declares, either a layered image which can be rendered or an error; it never panics, hangs or returns neither. "
     "A missing stack file, a wrong mimetype, a stack.xml that is not an image with dimensions, and a layer whose source is missing are reported with the respective documented error values.",
     ["inputs"], "every corruption of structure, XML or embedded PNG, and arbitrary bytes",
     "The tests hold a fixed list of malformed archives.",
     ["ora/decode.go", "ora/stack.go"], [("error paths", "ora/decode.go, ora/stack.go")], ["ora.Decode, ora.DecodeConfig error"])

prop("C17", "ORA encoding never reports success after a failed write",
     "If the destination fails at any point while an image is encoded as OpenRaster, the encoder returns an error. "
     "Whenever it returns no error, the bytes written form a complete file that decodes.",
     ["fault_sequences", "inputs"], "every write position at which the destination can start failing",
     "No test injects write faults; the last bytes (the ZIP directory) are written late.",
     ["ora/encode.go"], [("zip.Writer.Close error", "ora/encode.go")], ["error returned by ora.Encode"])

prop("C18", "XCF encode then decode returns the same layered image",
     "Encoding any layered image whose content lies in the canvas as XCF and decoding it returns the same tree of layers and groups, in order, with the same names, positions, sizes, visibility, opacity, (XCF-expressible) blend mode and masks, and layer pixels equal to the originals. "
     "Gray, paletted and colour images keep their colour kind, and the decoded image renders the same as the original. (As in GIMP, the bottommost layer, below which there is nothing, counts as Normal unless it is Dissolve, and images with a palette have no modes but Normal, Behind and Dissolve.)",
     ["inputs", "programs"], "every layer tree: nesting, more than 32 layers, sizes around multiples of 64, pixel types, masks, opacities, modes, UTF-8 names",
     "The xcf tests cannot run in this environment and sample fixed trees; tile edges and run-length boundaries need generated content.",
     ["xcf/encoder.go", "xcf/layer_encode.go", "xcf/image_encode.go", "xcf/decoder.go", "xcf/layer_decode.go", "xcf/image_decode.go", "xcf/rle.go", "xcf/channel.go"],
     [("encoder", "xcf/encoder.go, xcf/layer_encode.go, xcf/image_encode.go"), ("decoder", "xcf/decoder.go, xcf/layer_decode.go, xcf/image_decode.go")],
     ["xcf.Encode then xcf.Decode"])

prop("C19", "XCF files written are valid to an independent reader of the format",
     "Every file the encoder produces is a valid XCF file as described by the published XCF specification: header, properties, layer list, hierarchies, levels and 64x64 tiles are all where the pointers say, sizes agree, every tile's data decodes to exactly its pixels, and layers describe group membership, opacity, mode, visibility and offsets as given. "
     "An independent reader reconstructs the same image from it.",
     ["inputs", "programs"], "every encodable image",
     "The tests read files back only with the same library, which shares its mistakes; GIMP is not available to them.",
     ["xcf/encoder.go", "xcf/layer_encode.go", "xcf/image_encode.go", "xcf/rle.go", "xcf/channel.go"],
     [("pointer patching and tile writing", "xcf/layer_encode.go, xcf/image_encode.go"), ("run-length writer", "xcf/rle.go")],
     ["bytes written by xcf.Encode, parsed independently"])

prop("C20", "XCF files from other programs decode to what they describe",
     "Any valid 8-bit XCF file of the versions the library supports, whoever wrote it, decodes to what it describes: all six pixel types, no or run-length compression using any legal mix of runs, palettes, groups, masks (applied or not), offsets, opacities, modes under each of their numbers, visibility, hidden ordering of optional properties, and content outside the canvas clipped without moving the rest. "
     "Layers come back in stack order with the right nesting whatever their number.",
     ["inputs", "programs"], "every valid file generated from the XCF specification by an independent writer",
     "The tests hold a few embedded files, cannot run here, and none has masks with offsets, run-length edge cases, or many layers.",
     ["xcf/decoder.go", "xcf/layer_decode.go", "xcf/image_decode.go", "xcf/rle.go", "xcf/channel.go", "xcf/props.go", "xcf/reader.go"],
     [("layer list, group paths", "xcf/decoder.go"), ("tile reading", "xcf/image_decode.go"), ("run-length reader", "xcf/rle.go")],
     ["xcf.Decode"])

prop("C21", "XCF metadata the library does not use is skipped without side effects",
     "Adding to an XCF file any valid properties the library has no use for (guides, sample points, parasites, paths, vectors, resolution, units, tattoos, user units, unknown numbers), in any number and any order, on the image, layers or masks, does not change the decoded image. "
     "The same holds for extra channels stored beside the layers.",
     ["inputs", "configurations"], "every combination of valid unused properties of any size, and extra channels",
     "The tests have two fixed files with few properties.",
     ["xcf/skip.go", "xcf/decoder.go", "xcf/layer_decode.go", "xcf/parasites.go", "xcf/paths.go", "xcf/vectors.go"],
     [("property loops and skippers", "xcf/skip.go, xcf/decoder.go, xcf/layer_decode.go")], ["xcf.Decode with and without the metadata"])

prop("C22", "Compressed decoding shows exactly what ordinary decoding shows",
     "For every XCF input, decoding to a compressed image succeeds exactly when ordinary decoding does and yields the same layer tree and the same colours at every point, in whatever order and from however many goroutines points are read. "
     "Points outside the bounds read as transparent or zero rather than failing.",
     ["inputs", "histories", "schedules"], "every XCF file and every sequence (or concurrent set) of pixel reads",
     "The only test reads one file in one order.",
     ["xcf/compressed.go", "xcf/decoder.go", "xcf/image_decode.go"], [("tile cache of the compressed images", "xcf/compressed.go")],
     ["xcf.DecodeCompressed versus xcf.Decode"])

prop("C23", "Reported configuration agrees with the decoded image",
     "Reading only the configuration of an XCF or ORA file succeeds whenever decoding the file succeeds, and gives the width and height of its canvas and a usable colour model which matches the kind of the decoded image's pixels (RGB, gray, or the file's palette for XCF; non-premultiplied RGBA for ORA) and leaves every colour of an XCF file's layers, its alpha included, as it is.",
     ["inputs", "configurations"], "every decodable file: versions, base types, precision fields, palettes, property orders",
     "Stable tests check three ORA archives; no test covers other XCF versions or palettes.",
     ["xcf/decoder.go", "ora/decode.go"], [("DecodeConfig", "xcf/decoder.go, ora/decode.go")], ["DecodeConfig versus Decode, image.DecodeConfig"])

prop("C24", "Malformed XCF input never crashes, hangs or exhausts memory",
     "Whatever bytes are given as XCF, every decoding entry point returns, in time and memory proportionate to the input and to the canvas and layer sizes it validly declares, either an image whose every pixel can be read or an error. "
     "It never panics, in the caller or in a background goroutine, and never returns neither.",
     ["inputs"], "arbitrary bytes, and every mutation, truncation, splice and field overwrite of valid files",
     "Finite tests cannot cover the byte space; a single 32-bit length field suffices to break it.",
     ["xcf/decoder.go", "xcf/layer_decode.go", "xcf/image_decode.go", "xcf/parasites.go", "xcf/text.go", "xcf/skip.go", "xcf/vectors.go", "xcf/paths.go", "xcf/rle.go"],
     [("length checks of every variable-size field", "xcf/*.go")], ["xcf.Decode, DecodeCompressed, DecodeConfig"])

prop("C25", "A truncated XCF file is reported or loses nothing",
     "Decoding any prefix of a valid XCF file either fails with an error or returns exactly the image the complete file holds. "
     "It never silently yields an image with missing layers, missing properties or blank pixels.",
     ["inputs", "crash_points"], "every valid file and every truncation point",
     "No test truncates a file.",
     ["xcf/reader.go", "xcf/decoder.go", "xcf/layer_decode.go", "xcf/image_decode.go", "xcf/rle.go"],
     [("sticky reader error checked after each section", "xcf/reader.go, xcf/decoder.go")], ["xcf.Decode of prefixes"])

prop("C26", "XCF encoding never reports success after a failed write",
     "If the destination fails at any write while an image is encoded as XCF, with an error or by writing fewer bytes, the encoder returns an error. "
     "Whenever it returns no error, the bytes written form a complete file that decodes to the image given.",
     ["fault_sequences", "inputs"], "every write at which the destination can start failing",
     "No test injects write faults.",
     ["xcf/writer.go", "xcf/encoder.go", "xcf/layer_encode.go"], [("sticky writer error", "xcf/writer.go")], ["error returned by xcf.Encode"])

prop("C27", "Text layers keep their content and style through XCF",
     "A text layer encoded to XCF and decoded again holds the same text, whatever characters it contains, with the same styling (font, size, colours, bold, italic, underline, strikethrough, rise, letter spacing) on every part of it, and shows the same pixels; characters that styled text cannot hold make encoding report an error rather than lose them. "
     "Text layers written in GIMP's own notation decode to the text and styles it describes.",
     ["inputs"], "every sequence of styled text parts with arbitrary Unicode text, quotes, markup characters and line breaks",
     "The parser tests hold fixed strings and cannot run here; quoting and nesting need generated text.",
     ["xcf/text.go", "xcf/parasites.go", "xcf/layer_encode.go", "xcf/layer_decode.go"],
     [("text parasite writer", "xcf/layer_encode.go"), ("text parasite parser", "xcf/text.go, xcf/parasites.go")],
     ["limage.Text layers after xcf round trip"])

prop("C28", "Images decode the same from every kind of reader",
     "An image file given to the standard image registry decodes, as the right format and to the same image, from any reader that can seek or read at offsets, whether or not it is wrapped in a buffer, however few bytes each read returns; other readers are rejected with an error. "
     "Random-access reads over a seekable source return the bytes at the requested offset even under concurrent use and after failed operations, which are reported and leave it usable.",
     ["inputs", "schedules", "fault_sequences"], "every reader kind and chunking, any sequence or interleaving of offset reads, seek and read faults",
     "Tests use in-memory readers that return everything at once.",
     ["internal/bufioToReader.go", "ora/decode.go", "xcf/decoder.go"], [("GetReaderAt and the seek/read adapter", "internal/bufioToReader.go"), ("format registration", "xcf/decoder.go")],
     ["image.Decode, random-access adapter"])

prop("C29", "Encoders accept every image, deterministically and without changing it",
     "Encoding any image (of any type, colour model, bounds, including ones not at the origin or empty of layers), as XCF or ORA, succeeds or reports an error without panicking, and a plain image comes back as one layer with the same pixels, moved so that the canvas starts at the origin. "
     "Encoding the same image twice gives the same bytes, whatever the destination held before, and encoding does not modify the image.",
     ["inputs"], "every image.Image implementation, bounds and size",
     "Tests encode a few layered images at the origin.",
     ["xcf/encoder.go", "xcf/image_encode.go", "xcf/layer_encode.go", "ora/encode.go"], [("Encode", "xcf/encoder.go, ora/encode.go")],
     ["xcf.Encode, ora.Encode"])

prop("C30", "XCF and ORA agree on the same layered image",
     "A layered image that both formats can express renders the same, pixel for pixel, after going through XCF as after going through OpenRaster, and converting a decoded file to the other format preserves its layers, their names, positions, opacity, visibility, modes and pixels.",
     ["inputs", "programs"], "every layer tree expressible in both formats, and chains of conversions",
     "No test involves both formats.",
     ["ora/encode.go", "ora/stack.go", "xcf/encoder.go", "xcf/layer_decode.go"], [("the two codecs", "ora, xcf")], ["encode/decode chains through both packages"])

prop("C31", "Decoding does not depend on goroutine scheduling",
     "Decoding the same XCF or ORA bytes gives the same image, or the same kind of failure, every time: with any number of processors, under concurrent decodes of the same or different data, and with slow readers. "
     "No goroutine or data is left behind or shared in a way that lets one decode affect another.",
     ["schedules", "inputs"], "processor counts, concurrent decodes, delays injected into reads",
     "Tests decode once, sequentially.",
     ["xcf/decoder.go", "xcf/image_decode.go", "xcf/layer_decode.go"], [("concurrent layer reading", "xcf/decoder.go")], ["repeated and concurrent Decode"])

prop("C32", "A failing source is reported, never decoded as a damaged image",
     "If reading the source fails at any point while an XCF or ORA file is decoded, decoding returns an error, unless what could not be read is not part of the image. "
     "It never returns an image that differs from the one in the file, and never panics or hangs.",
     ["fault_sequences", "inputs"], "every read call or byte range at which the source can fail, transiently or permanently",
     "No test injects read faults.",
     ["xcf/reader.go", "xcf/decoder.go", "xcf/image_decode.go", "ora/decode.go", "ora/stack.go"], [("error propagation from readers", "xcf/reader.go, xcf/decoder.go, ora/*.go")],
     ["Decode error with a faulty io.ReaderAt"])

prop("C33", "XCF files that contradict the format are rejected with the right error",
     "A file which breaks a rule of the XCF format in one place is never decoded into an image: Decode, DecodeCompressed and image.Decode return no image and the error the package documents for it, wherever in the file it is. "
     "The rules are those on the signature, version and header, the kind of image, the palette and the colours used from it, compression, property lists, opacities, booleans, item paths and groups, strings, parasites, kinds and sizes of layers, masks, hierarchies, levels and tile lists, pointers, and run-length encoded data. "
     "DecodeConfig reports those which concern the header or an indexed image's palette.",
     ["inputs"], "every valid file, every single field of it which the format restricts and which the image depends on, and every value outside of what is allowed",
     "The decoder's tests cannot run here and decode valid files only; each check guards one field among hundreds of positions.",
     ["xcf/decoder.go", "xcf/layer_decode.go", "xcf/image_decode.go", "xcf/channel.go", "xcf/reader.go", "xcf/props.go", "xcf/parasites.go", "xcf/rle.go"],
     [("checks of fields as they are read", "xcf/decoder.go, xcf/layer_decode.go, xcf/image_decode.go")], ["errors of xcf.Decode, DecodeCompressed, DecodeConfig"])

prop("C34", "ORA archives that contradict the format are rejected, never decoded in part",
     "An archive which breaks a rule of OpenRaster in one place is never decoded into an image: Decode returns no image and an error other than io.EOF. "
     "The rules are that the sizes of the canvas are non-negative integers, positions integers and opacities numbers; that stack.xml is well-formed XML up to the end of the root stack and has such a stack; "
     "that the source of every layer is there and is an image, complete and undamaged; that the mimetype is the one of OpenRaster; and that stack.xml and the sources are compressed in a known way, have the length the archive states, and match their checksums, at whatever place of them the damage is. "
     "DecodeConfig reports what concerns the sizes, the mimetype, or the entry stack.xml.",
     ["inputs"], "every valid archive, every place of it that the format restricts, and every value outside of what is allowed",
     "The tests decode two valid archives and never a damaged one.",
     ["ora/decode.go", "ora/stack.go"], [("attribute parsing, sources, checksums", "ora/stack.go, ora/decode.go")], ["errors of ora.Decode, ora.DecodeConfig"])

prop("C35", "Opening a file and saving it again loses nothing",
     "Whatever a valid XCF or OpenRaster file of any program decodes to can be encoded again, in either format, and decodes to the same layers and groups, in the same order, with the same names, positions, sizes, visibility, opacities, masks, pixels and (format-expressible) modes; an XCF file stays of the kind (colour, gray, palette) it was, and so do gray and paletted pictures of an OpenRaster file that lie within it. "
     "It makes no difference to what is saved whether an XCF file was decoded ordinarily or compressed, nor whether all of a layer or a part of it is saved.",
     ["inputs", "programs"], "every valid file of either format, both ways of decoding, both formats to save in",
     "Tests never encode what was decoded; decoded images are of types (compressed, shifted, masked) no caller makes.",
     ["xcf/encoder.go", "xcf/layer_encode.go", "xcf/image_encode.go", "xcf/compressed.go", "ora/encode.go", "ora/stack.go", "layer.go"],
     [("type switches on decoded images", "xcf/encoder.go, xcf/image_encode.go"), ("compressed images", "xcf/compressed.go")], ["Decode or DecodeCompressed, Encode, Decode"])

prop("C36", "Layered images are live views of their layers, shared safely by all readers",
     "What a layered image, a layer, or a sub-image of one shows is at any time what its layers' present pixels, masks and settings make: reading or encoding it leaves nothing behind, so that after any history of reading, saving, drawing on the pixels (which sub-images share) and changing, adding or removing layers, it shows and is saved as the same as a fresh image of the same content. "
     "Any number of goroutines may read, take sub-images of and encode one image at once, each with the result it would have alone.",
     ["histories", "schedules", "inputs"], "every layer tree, built or decoded, every sequence of operations, and every set of concurrent readers",
     "Tests read each image once, from one goroutine.",
     ["image.go", "layer.go", "misc.go", "rgb.go", "grayalpha.go", "indexedalpha.go", "xcf/encoder.go", "xcf/compressed.go", "ora/encode.go"],
     [("At, SubImage of Image, Layer, MaskedImage", "image.go, layer.go, misc.go"), ("reads during encoding", "xcf/image_encode.go, ora/encode.go")],
     ["Image.At, Layer.At, SubImage, Encode after and during other operations"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
