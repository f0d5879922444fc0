#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The text lives here so that it can be edited comfortably."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [dict(name=n, where=w) for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

TT, GL, FA, HI = "truetype/truetype.go", "truetype/glyph.go", "truetype/face.go", "truetype/hint.go"
RA, GE, PA, ST, FT = "raster/raster.go", "raster/geom.go", "raster/paint.go", "raster/stroke.go", "freetype.go"

prop("C01", "Parsing is total: any byte string yields a font or an error",
 "For every byte string, parsing returns either a usable font with a nil error or a nil font with a non-nil error, which is one of the two documented types (FormatError, UnsupportedError); it never panics, never loops, never modifies the input, and allocates memory at most proportional to the input length. A well-formed font (or a collection whose first font is well-formed) is always accepted, and every prefix that cuts off a required table is rejected.",
 ["inputs"], "every truncation point and every single-field / single-byte corruption (boundary values) and pairs of header-field corruptions of small fonts and collections",
 "The tests parse four intact files and truncations of one header; the space of malformed files is unreachable by example.",
 [TT], [("bounds and consistency checks on the table directory and each required table", "truetype.Parse/parse, readTable, parseHead, parseMaxp, parseCmap, parseKern, parseHhea")],
 ["truetype.Parse return values", "freetype.ParseFont return values"])
prop("C02", "Every query on an accepted font is safe",
 "For every font that parsing accepts, however corrupt its tables, every rune, glyph index (in or out of range), name id, scale and hinting mode, each lookup (rune to glyph, names, metrics, bounds, kerning) returns a value and each glyph load returns either a well-formed result or an error (without hinting, a FormatError or UnsupportedError); nothing panics, hangs or allocates unboundedly. A glyph index at or beyond the glyph count is reported as an error by loading and as zero metrics by the metric queries, and a loaded glyph's contour ends are non-decreasing with the last one equal to its point count.",
 ["inputs"], "every single-byte / field corruption (boundary values) and truncation of each table of small fonts that still parse, times all queries on all runes of interest and all glyph indexes",
 "The tests query only intact fonts with valid arguments.",
 [TT, GL], [("bounds checks in each query and in the glyph decoder", "Font.Index, Font.Name, Font.Kern, Font.HMetric, Font.VMetric, GlyphBuf.Load"), ("compound recursion limit", "GlyphBuf.load")],
 ["return values of Font and GlyphBuf methods"])
prop("C03", "Hinting bytecode is contained",
 "Whatever instructions a font's font program, control-value program or glyph programs contain, loading a glyph with hinting terminates promptly and either succeeds or returns an error. It never panics, reads or writes outside its own storage, stack, control values and points, nor disturbs the glyph's contour structure (number of points and contour ends).",
 ["programs", "inputs"], "every instruction sequence up to a length bound over the complete opcode set with boundary-valued operands, in each of the three program slots, with each zone-pointer configuration",
 "The tests run some 30 hand-written programs and the programs of one font; TrueType bytecode is a Turing-complete language supplied by the untrusted font.",
 [HI, GL], [("step limit, stack/storage/CVT/point range checks", "hinter.run and helpers")],
 ["GlyphBuf.Load error/points/ends"])
prop("C04", "Runes map to the glyphs the font's character map specifies",
 "For every rune, the glyph index returned is the one the font's preferred character map assigns to it (the first Unicode map if any, otherwise a Microsoft one, of which a 32-bit map listed after others wins over those), and 0 for every rune the map does not cover. This holds for segment maps (with both delta and glyph-array segments, indices computed modulo 65536) and for grouped 32-bit maps, and does not depend on where in the file the map lies or what other maps exist.",
 ["inputs", "configurations"], "every segment/group layout over a small code-point alphabet (up to 3 segments, delta and glyph-array segments, all orders of subtables) times every rune at and around each boundary; all 0x110000+ runes for the bundled fonts against their XML dumps",
 "The tests look up about 40 runes in bundled fonts, none of which exercises glyph-array segments, several maps or supplementary planes.",
 [TT], [("subtable choice, format 4/12 decoding and binary search", "parseSubtables, Font.parseCmap, Font.Index")],
 ["Font.Index"])
prop("C05", "Glyph metrics and font bounds are the font's values, exactly scaled",
 "For every glyph index and scale, horizontal metrics, vertical metrics and font bounds equal the font-unit values in the font's tables multiplied by the scale and divided by units-per-em, rounded to nearest with halves away from zero (as long as the product fits the 32 bits of a fixed-point number). Glyphs past the last full horizontal metric share its advance but keep their own bearing, vertical metrics come from the vertical table, else the typographic ascender/descender, else one em, and out-of-range glyphs have zero metrics. The advance of a glyph loaded with hinting is the width that the device metrics table lists for it at that whole number of pixels per em, if it lists that size, and otherwise the glyph's own advance rounded to whole pixels; without hinting that table does not matter.",
 ["inputs", "configurations"], "every combination of glyph count, metric count, table presence, units-per-em and signed boundary value in a small domain, at every scale of a dense range; all glyphs of the bundled fonts against their XML dumps",
 "The tests check one glyph of one font at one or two scales.",
 [TT], [("table decoding and rounding", "Font.scale, Font.Bounds, Font.HMetric, Font.VMetric, parseHhea, parseHead")],
 ["Font.HMetric, Font.VMetric, Font.Bounds, Font.FUnitsPerEm"])
prop("C06", "Kerning returns exactly the font's pair adjustments",
 "For every ordered glyph pair and scale, the kerning is the scaled value the font's kerning table lists for that pair (sign preserved, rounded to nearest with halves away from zero), and zero for every pair not listed or when the font has no kerning table. A kerning table of another kind (vertical, cross-stream, minimum values, another format or version) is refused or ignored, never taken for horizontal adjustments.",
 ["inputs"], "every sorted subset of pairs over a small glyph alphabet (tables of 0..7 entries and larger regular ones), signed boundary values, every query pair including absent neighbours; all pairs of a bundled-font-sized table",
 "The tests check two or three pairs.",
 [TT], [("kern table header checks and binary search", "Font.parseKern, Font.Kern")], ["Font.Kern", "font.Face.Kern"])
prop("C07", "Name lookup returns the font's own string",
 "For every name id, the returned string is the text of the font's preferred record with exactly that id (a Unicode record first, otherwise a Microsoft one) with every character outside printable ASCII replaced by '?'. It is the empty string when no supported record has that id or the record is malformed, and never text of another record.",
 ["inputs"], "every choice and order of up to 3 name records over platforms, encodings, ids, offsets, lengths and contents in a small domain, including records reaching the ends of the storage area and malformed ones",
 "The tests read two names from intact fonts.",
 [TT], [("subtable choice with id predicate, offset arithmetic, decoding", "parseSubtables, Font.Name, printable")], ["Font.Name"])
prop("C08", "Simple glyph outlines decode to exactly the font's points",
 "For every simple glyph, whatever legal byte encoding was chosen for it (repeated flags, short or long or omitted coordinates, short or long glyph locations, padding), the loaded outline has exactly the font's contours, on/off flags and coordinates, each scaled and rounded to nearest. Without hinting the outline is shifted so that its left edge sits at its left side bearing, the advance width is the scaled horizontal metric, and the bounds are the exact bounding box of the points (zero for an empty glyph).",
 ["inputs", "configurations"], "all legal encodings of small outlines with boundary deltas, all contour partitions, short/long locations, at every scale of a range; every glyph of the bundled fonts against their XML dumps",
 "The tests compare the glyphs of one font at one scale; most encodings never occur in it.",
 [GL], [("flag/coordinate decoding, scaling, phantom points, bounds", "GlyphBuf.loadSimple, addPhantomsAndScale, Load")], ["GlyphBuf.Points, Ends, Bounds, AdvanceWidth"])
prop("C09", "Compound glyphs are the transformed union of their components",
 "For every compound glyph, the loaded outline is the concatenation, in order, of its components' outlines, each transformed by its scale or 2x2 matrix, then moved by its scaled offset (rounded to whole pixels exactly when the component asks for it), nested to any allowed depth. The glyph's metrics are its own unless a component carries the use-my-metrics flag, in which case they are that component's, and cyclic or over-deep nesting is an error rather than a hang.",
 ["inputs", "configurations"], "every compound glyph of up to 2-3 components over all flag combinations (byte/word arguments, rounding, scale kinds, use-my-metrics), boundary offsets and matrices, nested to depth 3, all cycles of small glyph graphs",
 "The tests load whichever compound glyphs the bundled fonts contain, unscaled and unflagged.",
 [GL], [("component loop, transforms, rounding, metrics override, recursion limit", "GlyphBuf.loadCompound, GlyphBuf.load")], ["GlyphBuf.Points, Ends, AdvanceWidth, Bounds, error"])
prop("C10", "Hinting instructions have their specified effect",
 "For every hinting program within the implemented instruction set, the hinted outline is the one defined by the TrueType instruction semantics: stack, storage, control-value, arithmetic, logic, rounding, control-flow, function-call, vector, and point-moving instructions each behave as specified, independent of where in a program they occur. A program that needs stack elements, points, contours or functions that do not exist is reported as an error. Instructions in the font and control-value programs take effect for every glyph loaded afterwards at that scale, and with hinting the advance width and bounds fall on whole pixels.",
 ["programs", "inputs"], "every instruction sequence up to a length bound over an alphabet of all implemented opcodes with boundary operands, compared step by step with an independent reference interpreter through the resulting points",
 "The tests run a few dozen programs and one font's; interactions of graphics-state settings and instructions are combinatorial.",
 [HI, GL], [("bytecode interpreter", "hinter.run, hinter.init"), ("hint hook-up", "GlyphBuf.load, loadCompound")], ["GlyphBuf.Points after Load with hinting"])
prop("C11", "Reusing a glyph buffer never changes a result",
 "Loading a glyph into a buffer that has been used before, for any history of earlier loads of any fonts, glyphs, scales and hinting modes, including loads that failed, and whatever the caller did with the buffer's exported fields in between, gives exactly the result (points, contours, metrics, bounds, error or success) of loading it into a fresh buffer.",
 ["histories"], "every sequence of loads up to a depth over an alphabet of fonts (with stateful font, control-value and glyph programs, failing ones included) x glyphs x scales x hinting modes",
 "The tests reuse buffers in one fixed order of one well-behaved font.",
 [GL, HI], [("per-load reset and hinter re-initialisation", "GlyphBuf.Load, hinter.init, hinter.run")], ["all exported GlyphBuf fields and Load's error"],
 [("GlyphBuf.hinter", "font, scale, storage, CVT, twilight points, functions kept between loads", "truetype/glyph.go, truetype/hint.go")])
prop("C12", "Rasterized coverage is exact",
 "For every path of line segments, each pixel's coverage handed to the painter is the exact signed area of the path within that pixel (segments crossing pixel boundaries at positions resolved to 1/64 pixel), folded by the chosen even-odd or non-zero winding rule. It does not depend on the order of the contours or where the bounds clip the path, it translates with the path by whole pixels, and a path partly outside the bounds covers the inside pixels as if the bounds were larger.",
 ["inputs", "configurations"], "all small polygons on a sub-pixel lattice (all triangles / quadrilaterals, pairs of contours), all placements relative to the bounds including negative coordinates and partial overlap on all sides, both winding rules",
 "The tests rasterize one glyph-like shape; coverage arithmetic has sign, carry and boundary cases no example reaches.",
 [RA], [("area/coverage accumulation", "Rasterizer.Start, Add1, scan, setCell, findCell, saveCell, areaToAlpha, Rasterize")], ["spans passed to Painter.Paint"])
prop("C13", "The span stream obeys the painter contract",
 "For every path and bounds, the spans of one rasterization, across all batches, are sorted by row and then column, never overlap, lie within the bounds (shifted by the rasterizer's offset), have positive width and non-zero alpha of at most full opacity, and arrive in one or more batches of which exactly the last is marked final. However many spans, rows and cells there are, none is lost or duplicated at a batch or buffer boundary.",
 ["inputs", "histories"], "all span-count / cell-count configurations around every internal buffer size, small polygons at every offset and bounds, self-overlapping and far-out-of-bounds paths",
 "Existing tests never exceed one batch or the initial cell buffer.",
 [RA, PA], [("span emission, batching, buffer growth", "Rasterizer.Rasterize, findCell, SetBounds")], ["Painter.Paint calls"])
prop("C14", "The rasterizer is history-independent and composable",
 "After clearing or re-setting the bounds, for any history of previous use, the rasterizer behaves exactly like a new one with those bounds; rasterizing twice gives the same spans twice; and adding a path, or several paths in turn, is equivalent to issuing their segments directly. The whole-pixel output offset translates the spans and changes nothing else.",
 ["histories"], "every sequence of operations (start, line, quadratic, cubic, add path, add stroke, rasterize, clear, set bounds, set offset, set winding) up to a depth over a small argument alphabet",
 "The tests only use fresh rasterizers, once.",
 [RA, GE], [("Clear/SetBounds reset, saveCell on Rasterize, AddPath dispatch", "Rasterizer.Clear, SetBounds, Rasterize, AddPath; Path.AddPath")], ["spans passed to Painter.Paint"])
prop("C15", "Curves are flattened within a small tolerance and stay joined",
 "For every quadratic or cubic segment, the area that gets filled is that of the true curve to within a fraction of a pixel everywhere: the rendered boundary never strays visibly from the mathematical curve at any size of curve or bounds. A curve starts exactly at the pen position, ends exactly at its end point, and a degenerate (straight) curve fills the same as its chord.",
 ["inputs"], "all quadratics on a lattice and all cubics on a smaller lattice, scaled from sub-pixel to thousands of pixels, at each bounds-dependent subdivision setting, both orientations",
 "The tests contain one example curve shape and no accuracy check.",
 [RA], [("adaptive subdivision", "Rasterizer.Add2, Rasterizer.Add3")], ["spans passed to Painter.Paint (coverage vs. the exact curve)"])
prop("C16", "A stroke covers the points within half a width of its path",
 "For every path of lines and quadratics, the stroked path filled with the non-zero rule covers every point within half the stroke width of the path (less a small tolerance) for round caps and joins, for lines of any length and for quadratics whose legs are not shorter than the stroke is wide, and nothing further away. Butt caps end flat at the end point, square caps extend by half a width, bevel joins never extend beyond round ones, each curve of a multi-curve path is stroked independently, nil cap and join mean round, and an empty or single-point path strokes to nothing.",
 ["inputs", "configurations"], "all polylines of up to 3 segments on a lattice of directions and lengths, all quadratics on a lattice, all cap x join combinations, several widths",
 "Two tests check numeric helpers only; no test strokes a path.",
 [ST, GE], [("offsetting, caps, joins, arcs", "Stroke, stroker.*, addArc, *Capper, *Joiner, addPathReversed")], ["coverage of Rasterizer.AddStroke / Path.AddStroke"])
prop("C17", "Painters composite exactly the covered pixels of their own image",
 "For every span and image geometry (sub-images, images not starting at the origin, any stride), each painter changes only pixels that are inside both the span and the image, and each changed pixel gets the Porter-Duff result of its operator (over or source) for the span's alpha, the source colour and the previous pixel, to within 8-bit rounding, fully opaque and fully transparent cases exactly. Nothing outside the image's rectangle is ever written, even within the same backing array.",
 ["inputs", "configurations"], "every span position relative to every small image rectangle and sub-image, all 8-bit destination x alpha pairs, a lattice of colours, all batch orders of 1-3 spans",
 "Existing tests do not check painters' arithmetic or clipping.",
 [PA], [("span clipping and compositing loops", "AlphaOverPainter, AlphaSrcPainter, RGBAPainter Paint, SetColor")], ["image pixels before and after Paint"])
prop("C18", "Alpha-adjusting painters transform coverage and nothing else",
 "The monochrome painter passes on exactly the pixels whose alpha is at least one half, fully opaque, as non-empty ordered spans, ends each rasterization with exactly one final call, and is then ready for re-use; how the input is divided into batches does not matter. The gamma painter passes on every span with unchanged position, maps alpha through a monotone curve within a small tolerance of the power law with 0 and full opacity fixed, is the identity for gamma 1, and both preserve batch finality, work on top of any painter, and use no memory but the spans they are given.",
 ["histories", "inputs"], "every sequence of up to 5-6 spans over a small alphabet of adjacency, row and alpha classes, every division into batches and re-use across 2 rasterizations; every alpha 0..65535 for a set of gammas",
 "There is no test of these painters; batching cases are combinatorial.",
 [PA], [("span merging across batches; interpolation table", "MonochromePainter.Paint, GammaCorrectionPainter.Paint/SetGamma")], ["calls on the wrapped painter"])
prop("C19", "Drawing text renders the outlines, clipped, whatever was drawn before",
 "For every history of settings changes and draws on a context, drawing a string composites, for each rune in turn, the glyph's outline as if freshly rasterized at the pen position (to the documented sub-pixel quantum), and nothing outside the clip rectangle or the destination; a clip only ever hides pixels and never moves or alters visible ones. The returned point is the start advanced by every glyph's advance width and the kerning of each adjacent pair (kerning rounded to whole pixels when hinting), regardless of clipping, and settings may be made in any order. A source image that is not uniform has its origin at the same place of each glyph's mask, wherever that is drawn and whatever is clipped. PointToFixed gives the number of pixels that a number of points is at the set resolution.",
 ["histories", "configurations", "inputs"], "every sequence of operations up to a depth over (set font, size, dpi, hinting, clip, source, destination, draw) with fonts and strings whose glyphs collide in the cache; every clip rectangle and pen offset around a glyph",
 "One test draws one string once with one setting.",
 [FT], [("glyph cache keyed by glyph and quantised position, invalidated by setters", "Context.glyph, Context.rasterize, Context.recalc, Context.DrawString")], ["destination pixels, returned point, error"],
 [("Context.cache", "glyph masks kept between draws", "freetype.go")])
prop("C20", "A face's glyph images match the outline whatever was cached before",
 "For every history of queries on a face and every option (size, DPI, hinting, cache size, sub-pixel positions in x and y), each glyph request returns the mask of that rune's outline rasterized at the requested dot rounded to the requested sub-pixel grid, placed at the right pixel, with that glyph's advance and nothing of any other glyph. The result is the same as from a fresh face, and all of the mask lies within the returned rectangle.",
 ["histories", "configurations", "inputs"], "every sequence of glyph requests up to a depth over runes and dots forced to collide in caches of 1-4 entries, every sub-pixel option pair, every fractional dot, all glyphs of bundled fonts for small sizes",
 "One test draws one string with one setting.",
 [FA], [("glyph mask cache and rune cache, sub-pixel quantisation, mask slots", "face.Glyph, face.rasterize, face.index, NewFace, Options.subPixelsX/Y, facePainter")], ["font.Face.Glyph results"],
 [("face.glyphCache/masks", "cached masks in slots of a shared image", "truetype/face.go")])
prop("C21", "One parsed font can be used from many goroutines at once",
 "A parsed font may be shared: any number of goroutines may concurrently look up glyphs, metrics, names and kerning and load, hint and draw glyphs through their own buffers, faces and contexts, and each obtains exactly the results it would have obtained alone, with no data race. Rasterizers, painters, faces and contexts that are not shared never interfere with each other through hidden global state.",
 ["schedules"], "all interleavings of 2-3 goroutines at statement granularity up to a preemption bound, over pairs of operations on a shared font and on unshared objects; plus race-detector runs of the same bodies",
 "The tests are single-threaded.",
 [TT, GL, HI, FA, RA, ST, FT], [("fonts are immutable after Parse; all scratch state lives in per-caller objects", "truetype.Font, GlyphBuf, hinter, face, Context, Rasterizer")], ["results of concurrent operations, race detector"])
prop("C22", "Glyph contours are drawn as the closed curves they denote",
 "For every contour, whatever the pattern of on-curve and off-curve points and whichever point it starts with, drawing fills the closed curve whose on-curve points are joined by lines, with single off-curve points as quadratic controls and the midpoint between consecutive off-curve points implied. Rotating the starting point of a contour does not change the picture, every contour is drawn and closed, and glyph y grows upwards while image y grows downwards; contexts and faces agree.",
 ["inputs"], "every on/off pattern of contours of up to 6 points on a small lattice, every start rotation, one and two contours, all-off-curve contours, through both the context and the face",
 "The bundled fonts' contours nearly all start on-curve; no test checks a contour's interpretation.",
 [FT, FA], [("contour walk with implied points", "Context.drawContour, face.drawContour")], ["destination pixels of Context.DrawString; masks of face.Glyph"])
prop("C23", "A font's container layout is immaterial",
 "The order and position of tables in the file, gaps, padding and unknown extra tables, checksums, and wrapping in a collection (any version, any number of fonts, of which the first listed is used) do not affect any result: the font behaves identically to the same tables laid out plainly. The absence of optional tables only removes the features they provide.",
 ["configurations", "inputs"], "all orders of table placement (permutations of small groups), shared/overlapping identical tables, extra tables, all collection wrappings of up to 3 fonts in any order and offset, every subset of optional tables",
 "Each bundled font has one layout; no collection is among the tests' inputs.",
 [TT], [("table directory walk, collection header", "parse, readTable")], ["all Font queries and GlyphBuf.Load"])
prop("C24", "A face's measurements agree with the font and with what is drawn",
 "For every rune, option set and history of earlier calls on the face, the measured advance equals the advance returned when drawing and the outline's own, the measured bounds are the outline's exact bounds with y downwards, kerning between runes is the font's kerning of their glyphs (rounded to whole pixels when hinting), and ascent/descent/height are the font's scaled values rounded up. Unset or invalid options behave as the documented defaults (12 point, 72 DPI, no hinting, 512 cache entries, 4x1 sub-pixels).",
 ["histories", "configurations", "inputs"], "every option combination over boundary values, all sequences of measuring and drawing calls up to a depth over runes that collide in the rune cache, all glyphs of the bundled fonts",
 "No test checks face measurements.",
 [FA], [("rune cache, scale computation, Options defaults", "face.index, face.GlyphBounds, face.GlyphAdvance, face.Kern, face.Metrics, Options.*")], ["font.Face.Metrics, Kern, GlyphBounds, GlyphAdvance, Glyph"])
prop("C25", "Objects do not influence each other, nor what they are given",
 "Rasterizers, paths, strokes, painters, glyph buffers, faces, contexts and fonts that are separate objects, even if made from the same font, do not influence each other: whatever the interleaving of calls on them, including calls nested in a painter, adder, capper, joiner or source image that another one calls back, each call gives what it gives when its object is used alone, and what a call has returned stays as it is until the next call on that object. Calls leave the paths (and the memory behind them), options and font data they are given unchanged, and later changes of a path or of options by the caller have no effect on what was made from them.",
 ["histories", "schedules", "inputs"], "all interleavings of scripts of 2 to 3 operations on pairs (and triples) of objects of eight kinds; every operation of every kind nested at each callback of another; every short path with every amount of spare capacity given to every consumer and changed afterwards; options changed at every point",
 "The tests use one object at a time and never from within a callback.",
 [GL, FA, FT, RA, PA, ST, GE], [("all scratch state is in the objects; paths are copied; options are read once", "GlyphBuf, hinter, face, Context, Rasterizer, stroker, Path.AddPath, Path.AddStroke, NewFace")],
 ["results of calls on several objects in turn", "paths and options after calls"])

prop("C26", "Repeated use needs no more memory than one use",
 "However often an object is used (a glyph buffer, rasterizer, path, stroke, context, face, font or painter), whatever the sequence of operations, and however many different runes, glyphs, dots, scales, fonts, images and colours it has been given, what it keeps in memory stays within what its documented caches, its buffers for the largest input and its latest settings need: memory does not grow with the number of calls. Parsing, failing to parse and objects that are no longer used leave nothing behind.",
 ["histories"], "all sequences of up to 2 (thorough: 3) operations on objects of seven kinds as one round of histories of thousands of rounds with arguments that never repeat; the live heap after each stretch",
 "The tests end after a few calls; growth shows only after many.",
 [GL, HI, FA, FT, RA, PA, GE], [("caches are arrays of fixed size; buffers are truncated and reused", "face.glyphCache, face.indexCache, Context.cache, Rasterizer.cell, GlyphBuf, Path.Clear, hinter.init")],
 ["live heap after a collection"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
