"""The checks: which tests decide which property, and how they count cases."""

XCF_SHIMS = "the modules xcf depends on (byteio, memio, parser) are replaced by stand-ins in /verif/shims, as they cannot be fetched here"

CHECKS = {
    "C01": dict(
        quick_scale=4, pkg="colour", run="^TestC01_", technique="property-based testing against a float reference of each formula, with enumeration of 8-bit pairs and boundary values",
        rule="mode, bottom and top colour drawn with boundary-biased 16-bit channels and alphas, plus all 8-bit channel pairs per mode and a grid of boundary values and alphas; non-trivial: neither colour transparent and not both gray (enumerated cases count once each)",
        note="float reference; tolerance 8/65535 (140/65535 for the grain modes, whose middle is 127.5 or 128)"),
    "C02": dict(
        quick_scale=12, pkg="colour", run="^TestC02_", technique="property-based testing of algebraic laws and representation independence",
        rule="any mode value with two colours of any of 14 colour types; every case counts, distinct by mode, colours and types",
        note="alpha laws exempt the Porter-Duff modes, which have their own (C05)"),
    "C03": dict(
        quick_scale=12, pkg="colour", run="^TestC03_", technique="property-based testing against a float HSV/HSL reference",
        rule="one of five modes and two colours; non-trivial: neither transparent, bottom not gray",
        note="tolerance 24/65535; where the hue of gray is undefined either reading is accepted"),
    "C04": dict(
        quick_scale=12, pkg="colour", run="^TestC04_", technique="property-based testing with a statistical oracle far outside chance (9 standard deviations)",
        rule="two colours of any type, 4000 evaluations each; non-trivial: the alphas differ and bottom and opaque top can be told apart",
        note="frequency margin of 9 standard deviations: no chance failures in practice"),
    "C05": dict(
        quick_scale=12, pkg="colour", run="^TestC05_", technique="property-based testing against Porter-Duff algebra in floats",
        rule="one of five modes and two colours; non-trivial: neither transparent",
        note="tolerance 8/65535, premultiplied"),
    "C06": dict(
        quick_scale=6, pkg="colour", run="^TestC06_", technique="property-based testing: round trip and float textbook reference, with a grid over the RGB cube",
        rule="colours, HSVA and HSLA values with boundary-biased 16-bit components, and a grid over the 8-bit RGB cube; non-trivial: not gray",
        note="tolerance 12/65535 in RGB, 4/65535 in hue, 3/65535 in the other components"),
    "C07": dict(
        quick_scale=12, pkg="colour", run="^TestC07_", technique="property-based testing: idempotence, fixpoints, agreement of views, brute-force nearest palette entry",
        rule="colours of any type, palettes of 1 to 256 entries; non-trivial: not fully transparent (and, for palettes, more than one entry)",
        note="one step of rounding allowed between the two views"),
    "C08": dict(
        quick_scale=25, pkg="colour", run="^TestC08_", technique="stateful model-based testing against a map from points to pixels",
        rule="operation sequences over an image and its sub-images; non-trivial: the image is not empty and the sequence has a sub-image and a write",
        note="images up to 9x9 pixels"),
    "C09": dict(
        quick_scale=10, pkg="layers", run="^TestC09_", technique="property-based testing against a set-valued reference fold",
        rule="layer trees of depth up to 3 with masks, text, groups, all modes and 15 kinds of pixel image; non-trivial: at least two visible non-empty layers",
        note="canvas up to 9x7; Dissolve is modelled as a choice; a layer's own colour and the mode's result are taken from the library (decided by C01-C05, C11)"),
    "C10": dict(
        quick_scale=12, pkg="layers", run="^TestC10_", technique="property-based testing, metamorphic: sub-image against original",
        rule="layer trees and chains of 1 to 3 rectangles; non-trivial: the result is not empty and its origin moved",
        note="Dissolve is left out, being random"),
    "C11": dict(
        quick_scale=25, pkg="layers", run="^TestC11_", technique="property-based testing against the alpha product",
        rule="images of 15 kinds, masks, transparencies and positions; non-trivial: some mask value and the transparency are strictly between none and full",
        note="tolerance 4/65535"),
    "C12": dict(
        quick_scale=3, pkg="ora", run="^TestC12_", technique="property-based testing: encode/decode round trip of generated layer trees, compared layer by layer, pixel by pixel and as rendered",
        rule="layer trees (depth up to 3, sometimes more than 30 layers in a group, 15 kinds of image, masks, text, all modes, all opacities, names with markup and Unicode, canvases not at the origin); non-trivial: a group or several layers, and something not at the origin (Tree), or modes or transparency in use (Render)",
        note="layers are not empty; rendering is compared exactly for kinds of image which PNG keeps exactly, without palettes (an image with a palette is rendered by rules of its own, C09) and without masks (rounded to 8 bits in the file)"),
    "C13": dict(
        quick_scale=5, pkg="ora", run="^TestC13_", technique="property-based testing with an independent ZIP and OpenRaster reader as the oracle",
        rule="layer trees as for C12, and single images of 15 kinds with any bounds; non-trivial: a group or several layers, or an image not at the origin",
        note="PNG data is read with image/png, XML with encoding/xml and a check for repeated attributes"),
    "C14": dict(
        quick_scale=4, pkg="ora", run="^TestC14_", technique="property-based testing against the encoded image: the merged image pixel by pixel, the thumbnail within the range of its part of the picture",
        rule="layer trees, and pictures of 257 to 3000 pixels' length in all shapes, with a gradient that codes the position; non-trivial: several layers or a large picture",
        note="Dissolve is left out, being random; a thumbnail pixel may show anything within its part and one thumbnail pixel around it"),
    "C15": dict(
        quick_scale=10, pkg="ora", run="^TestC15_", technique="property-based testing: grammar-based generation of archives by an independent writer, compared with the model they were written from",
        rule="archives with up to 36 stacks and layers, in every notation XML allows, unknown things everywhere; non-trivial: several layers or a nested stack",
        note="rendering is compared for files without palettes; where a stack has no content it may be composited or left out (stacks have no extent)"),
    "C16": dict(
        quick_scale=3, pkg="ora", run="^TestC16_", technique="fuzzing: structured and byte-level mutation of generated archives; documented errors, no panic, no hang, usable results",
        rule="valid archives damaged in one documented way, or by mutated XML, PNG data, entries or archive bytes, or cut short; every damaged archive counts",
        note="memory is limited to 4 GB per process; PNG files and ZIP entries which validly declare enormous sizes are not generated"),
    "C17": dict(
        quick_scale=2, pkg="ora", run="^TestC17_", technique="property-based fault injection at drawn and at all write positions",
        rule="layer trees, four kinds of failure of the destination, positions all over the file, preferring the borders of writes; every (image, position, kind) counts",
        note="the destination fails for good, once, by a short write without an error, or after having taken a part"),
    "C18": dict(
        quick_scale=15, pkg="xcf", run="^TestC18_", technique="property-based testing: encode/decode round trip of generated layer trees, compared layer by layer, pixel by pixel and as rendered",
        rule="layer trees (depth up to 3, sometimes more than 32 layers, sizes around multiples of 64, colour, gray and paletted images, masks on layers and groups, text, all modes XCF has, all opacities, names with markup and Unicode, canvases not at the origin); non-trivial: a group or several layers, and something not at the origin (Tree), or modes, masks or transparency in use (Render)",
        note=XCF_SHIMS + "; 16-bit images are compared as rounded to 8 bits"),
    "C19": dict(
        quick_scale=25, pkg="xcf", run="^TestC19_", technique="property-based testing with an independent XCF reader, written from the format's description, as the oracle",
        rule="layer trees as for C18, and rows of bytes with runs of drawn lengths around the limits of run-length encoding; non-trivial: several layers or a group (Reader), more than one run (Runs)",
        note=XCF_SHIMS + "; the independent reader reads real files of GIMP's correctly (C20)"),
    "C20": dict(
        quick_scale=20, pkg="xcf", run="^TestC20_", technique="property-based testing: files built by an independent XCF writer from a drawn model, compared with that model, and seven files of GIMP's compared with the independent reader",
        rule="files of versions 0 to 11 of all base types with drawn layers, groups, masks, properties in any order, both compressions with drawn (legal, not optimal) runs, gaps and shuffled blocks; non-trivial: several layers or a group (Foreign), and modes, masks or transparency in use (Render)",
        note=XCF_SHIMS + "; 8-bit precision; indexed files of version 0 are left out"),
    "C21": dict(
        quick_scale=15, pkg="xcf", run="^TestC21_", technique="property-based testing, metamorphic: the same file with and without drawn metadata",
        rule="files as for C20 with drawn unused properties, parasites, paths, vectors and channels put in anywhere; non-trivial: something was added to the image and to a layer or mask",
        note=XCF_SHIMS),
    "C22": dict(
        quick_scale=5, pkg="xcf", run="^TestC22_", race={"xcf": "^TestC22_Compressed"}, technique="property-based differential testing (compressed against ordinary decoding) with drawn read orders and goroutines, partly under the race detector",
        rule="files as for C20, damaged files as for C24; points read in drawn orders from up to 8 goroutines; non-trivial: a layer of more than one tile or several layers",
        note=XCF_SHIMS),
    "C23": dict(
        quick_scale=6, pkg=["ora", "xcf"], run="^TestC23_", technique="property-based testing: the reported configuration against the decoded image",
        rule="files of both formats, written by the library and by independent writers; every file counts",
        note=XCF_SHIMS),
    "C24": dict(
        quick_scale=5, pkg="xcf", run="^TestC24_", technique="fuzzing: structured and byte-level mutation of generated and real files under budgets of time and memory",
        rule="valid files damaged by overwritten fields, pointers, lengths and text, spliced, cut, and noise, and files which declare drawn huge sizes; every damaged file counts",
        note=XCF_SHIMS + "; budgets: 20 s of CPU, and 64 MiB plus a multiple of the input's length for all four entry points together; sizes a file declares validly and backs with tile lists are excluded"),
    "C25": dict(
        quick_scale=10, pkg="xcf", run="^TestC25_", technique="property-based testing of drawn and of all truncation points",
        rule="files of the library and of the independent writer; every (file, length) counts",
        note=XCF_SHIMS),
    "C26": dict(
        quick_scale=15, pkg="xcf", run="^TestC26_", technique="property-based fault injection at drawn and at all writes",
        rule="layer trees, kinds of failure of the destination (for good, once, short writes with and without an error); every (image, write, kind) counts",
        note=XCF_SHIMS),
    "C27": dict(
        quick_scale=12, pkg="xcf", run="^TestC27_", technique="property-based testing: round trip of styled text compared character by character, and an independent writer of GIMP's text notation",
        rule="drawn sequences of styled parts with arbitrary Unicode text, and drawn parasites with nested markup and escapes; non-trivial: more than one part, or a style or character that needs an escape",
        note=XCF_SHIMS + "; several styles only with characters XML can hold, colours of 8 bits"),
    "C28": dict(
        quick_scale=5, pkg="xcf", run="^TestC28_", overlay={"verifhook/hook.go": "hook/hook.go.txt"}, race={"xcf": "^TestC28_"}, technique="property-based testing over kinds of reader, chunkings and faults; stateful model-based testing of the random-access adapter, partly under the race detector",
        rule="files through 14 kinds of reader, wrapped or not, with drawn chunk sizes; sequences of offset reads with drawn seek and read faults, from several goroutines; every case counts",
        note=XCF_SHIMS + "; the adapter is reached through an overlaid package that exports it; if that does not compile, through image.Decode only"),
    "C29": dict(
        quick_scale=5, pkg=["ora", "xcf"], run="^TestC29_", technique="property-based testing: decoded pixels, equality of two encodings, snapshot of the image",
        rule="images of 15 kinds and any bounds, layer trees; non-trivial: bounds not at the origin or a kind of its own",
        note=XCF_SHIMS),
    "C30": dict(
        quick_scale=2.5, pkg="cross", run="^TestC30_", technique="property-based differential testing: the same layer tree through both formats, and chains of conversions",
        rule="layer trees with the modes both formats have, chains of 2 to 5 conversions, files of the independent XCF writer converted to ORA; non-trivial: several layers, with modes or transparency in use (Render), or a group",
        note=XCF_SHIMS + "; layers without pixels are left out, there being no empty PNG files"),
    "C31": dict(
        quick_scale=4, pkg=["ora", "xcf"], run="^TestC31_", race={"xcf": "^TestC31_(XCF|Shared)", "ora": "^TestC31_"}, technique="property-based testing over processor counts, concurrent decodes and drawn delays, partly under the race detector",
        rule="files of both formats, valid and damaged, decoded several times at once with slow readers; non-trivial: every case with more than one layer or decode",
        note=XCF_SHIMS + "; schedules are sampled, not enumerated"),
    "C32": dict(
        quick_scale=8, pkg=["ora", "xcf"], run="^TestC32_", technique="property-based fault injection at drawn reads and byte ranges of the source",
        rule="files of both formats, kinds of failure (for good, once, of a range of bytes, with part of the data); every (file, place, kind) counts",
        note=XCF_SHIMS),
    "C33": dict(
        quick_scale=10, pkg="xcf", run="^TestC33_", technique="fuzzing: single-field damage of generated files by a writer that knows the meaning of every field, with the documented error as the oracle",
        rule="files as for C20, one number of which is replaced by a drawn one that is not allowed there, or which contradict themselves in one of nine other ways; every damaged file counts",
        note=XCF_SHIMS),
    "C34": dict(
        quick_scale=4, pkg="ora", run="^TestC34_", technique="fuzzing: single-field damage of generated archives, by a writer that knows what each part means, with rejection (and where documented the error) as the oracle",
        rule="archives as for C15, of which one number, tag, source, checksum, or entry is replaced by one that is not allowed there; every damaged archive counts",
        note="ill-formed is what encoding/xml takes for ill-formed"),
    "C35": dict(
        quick_scale=4, pkg=["cross", "ora", "xcf"], run="^TestC35_", technique="property-based testing, metamorphic: files of independent writers decoded in both ways, encoded in both formats, and decoded again",
        rule="files as for C20 and archives as for C15, and drawn parts of their layers; non-trivial: several layers or a group or nested stack",
        note=XCF_SHIMS + "; modes are compared where the format saved in has them, palettes keep Normal, Dissolve and Behind, and layers without pixels are left out where PNG files are written"),
    "C36": dict(
        quick_scale=5, pkg="cross", run="^TestC36_", race={"cross": "^TestC36_Readers"}, technique="stateful property-based testing: histories of operations compared with a fresh deep copy; concurrent readers compared with a lone one, partly under the race detector",
        rule="drawn layer trees, as they are or decoded from XCF, compressed XCF or ORA, with sequences of 3 to 14 drawings, changes, sub-images, encodings and readings (non-trivial: something was drawn or changed after the image had been read), and sets of 2 to 6 goroutines reading, cutting and encoding (each counts)",
        note=XCF_SHIMS + "; schedules are sampled; Dissolve is left out, being random; sub-images are not compared after layers were changed, only after pixels were"),
}
