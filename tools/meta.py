#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    assert len(title) <= 80, (id, len(title))
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])), technique, note))


SAMPLED = "The generated inputs are a sample, not all inputs; the oracle is an independent model of the SVG rules in /verif/harness. "

prop("C01", "Parsing any bytes ends with a result or an error, never a crash",
     "For every input and every error mode, parsing ends with either an error or a document without an error, and never panics, hangs, or returns neither. Its time and memory are in proportion to the size of the input times its nesting depth, and to the size of what its use elements expand to. A returned document is well formed: every path starts with a move, every coordinate is the fixed-point image of a finite number, and opacities lie between 0 and 1. Deeply nested, very long and repetitive inputs are handled too.",
     ["inputs", "configurations"], "all byte strings (random, token soup, attribute values, mutations of valid documents and of the repository's icons, large inputs) in all three error modes",
     "The tests parse some forty hand-drawn icons and one broken file; they never reach hostile or unusual attribute values.",
     ["svg.go", "parse.go", "parse_path.go", "svg_elements.go", "patterns.go", "units.go"],
     [("decoding loop and error modes", "svg.go Parse"), ("path data scanner", "parse_path.go"), ("attribute readers", "svg_elements.go, parse.go")],
     "fuzzing with structured and mutating generators against an invariant oracle",
     SAMPLED + "Hangs are found by a generous per-case limit that is confirmed in a fresh process.")

prop("C02", "Path data is drawn as the SVG path grammar says",
     "For every path in the SVG path grammar (all commands, absolute and relative, with implicit repetition), the parsed path is the same curve as the one the SVG specification defines: lines, quadratic and cubic curves keep their control points, smooth commands reflect the right control point, and elliptical arcs stay on their ellipse between their end points. Subpaths begin and close where the specification says, also when drawing continues after a closepath. Coordinates are exact to 1/64 of a user unit and arcs to a small tolerance.",
     ["inputs"], "all path data strings of up to 8 commands with several argument sets each",
     "The tests only check that icons parse; no test looks at a coordinate of a path.",
     ["parse_path.go", "shapes.go", "path.go"],
     [("command interpreter", "parse_path.go addSeg"), ("control point reflection", "parse_path.go reflectControlQuad/Cube"), ("arc conversion", "shapes.go addArc, findEllipseCenter")],
     "property-based testing: grammar-generated path data against a reference path interpreter",
     SAMPLED + "Paths are compared segment by segment for lines and curves, by sampling the arc's ellipse for arcs.")

prop("C03", "The spelling of path data does not change the path",
     "Two texts of the same path data give the same path: separators (commas, any white space, none where the grammar allows it), number spellings (signs, leading or trailing zeros, missing integer part, exponents), repeated or implicit command letters, and absolute or relative coordinates do not matter.",
     ["inputs"], "all pairs of spellings of a generated path",
     "One unit test reads a handful of numbers; spellings interact with commands in combinations no test samples.",
     ["parse_path.go"], [("number scanner", "parse_path.go getPoints, readFloat"), ("command splitting", "parse_path.go compilePath")],
     "property-based testing: metamorphic relation between spellings",
     SAMPLED + "Relative against absolute spellings are compared to 1/64 of a unit, all others exactly.")

prop("C04", "A malformed value is an error in every mode, never silently misread",
     "In every error mode a document with a malformed number, length, colour, opacity, transform, path, point list, dash list, view box or reference in a supported attribute makes parsing return an error, wherever in the document the value is, and however deep; a malformed attribute of a definition counts at the latest when the definition is used. The same document without the malformed value is accepted.",
     ["inputs", "configurations"], "every supported attribute on every element that reads it, as attribute or in a style, with generated malformed values, in every context and error mode",
     "The only negative test is one broken XML file.",
     ["parse.go", "svg_elements.go", "units.go", "patterns.go", "parse_path.go"],
     [("attribute readers return errors", "parse.go readStyleAttr, svg_elements.go"), ("errors end parsing", "svg.go Parse")],
     "property-based testing: malformed values generated by corrupting good ones, injected at every site in generated documents",
     SAMPLED + "Values that CSS or SVG parsers disagree about (repeated commas, a missing closing parenthesis of rgb) are outside the domain. Every case is checked against a control with a good value in the same place.")

prop("C05", "Basic shapes become the path of their geometry",
     "Each rect (with or without rounded corners, radii defaulting to each other and limited to half the sides), circle, ellipse, line, polyline and polygon gives exactly one path with the outline the SVG specification defines for its attributes, to a tolerance of a few 1/64ths of a unit. Degenerate shapes (zero sizes or radii, fewer than two points) draw nothing, and a shape never contains points of another one.",
     ["inputs"], "all shapes with all combinations of present and absent attributes and sizes over several orders of magnitude, several per document",
     "The tests only check that shape icons parse without error.",
     ["svg_elements.go", "shapes.go"], [("shape readers", "svg_elements.go rectF, circleF, lineF, polylineF, polygonF"), ("outlines", "shapes.go addRect, addRoundRect, parse_path.go ellipseAt")],
     "property-based testing: generated shapes against the geometry of the specification", SAMPLED)

prop("C06", "Lengths mean the same in every unit",
     "A length of any element or style attribute is read with its unit: px, cm, mm, in, pt, pc and Q in their CSS sizes and percentages of the view box's width, height or diagonal, as its attribute demands. The same length written in another unit gives the same document.",
     ["inputs"], "all attributes that take lengths, all units and spellings, all view boxes",
     "One unit test converts a few lengths with the internal helper; it does not cover which attribute refers to which side of the view box.",
     ["units.go", "svg_elements.go", "parse.go"], [("unit conversion", "units.go parseUnit, resolveUnit"), ("reference of percentages", "svg_elements.go, parse.go callers of parseUnit")],
     "property-based testing: reference unit conversion and document model", SAMPLED + "Values are compared to 1e-6 relative or 1/64 unit.")

prop("C07", "Every colour syntax gives its colour",
     "Colours written as a name (all 147 SVG names, any case), as #rgb or #rrggbb, or as rgb() with integers or percentages (clamped to their range) give exactly the colour CSS defines wherever a colour may stand: fill, stroke and gradient stops, as attributes or in styles. none gives no paint.",
     ["inputs"], "all names, all hex forms and all rgb() forms in every slot",
     "No test looks at a colour value.",
     ["patterns.go", "parse.go", "svg_elements.go"], [("colour parser", "patterns.go parseSVGColor, parseSVGColorNum, parseColorValue")],
     "property-based testing: colour table and CSS arithmetic as oracle", SAMPLED + "All 147 names are tried on every run; 4- and 8-digit hex are outside the domain.")

prop("C08", "Presentation attributes cascade as SVG says",
     "Each drawn shape gets, for every presentation property (fill, stroke, their opacities, fill rule, width, caps, joins, miter limit, dashes, masks), the value its nearest ancestor or itself declares, the style attribute winning over presentation attributes and later declarations over earlier ones, and otherwise the initial value. Opacities multiply down the tree. Siblings, text order of unrelated attributes and closed groups have no influence.",
     ["inputs"], "all trees of groups, nested svg elements, shapes and uses with declarations at any level",
     "The tests never look at the style of a parsed path.",
     ["parse.go", "styles.go", "svg_elements.go", "types.go"], [("style stack", "parse.go pushStyle, svg.go Parse"), ("declarations", "parse.go readStyleAttr"), ("style attribute", "styles.go appendStyleAttrs")],
     "property-based testing: generated documents against a reference cascade", SAMPLED)

prop("C09", "Transform lists compose as matrix products from the outside in",
     "The transform of each drawn shape is the product of the transforms of its ancestors, outermost first, each of them being the product of its list from left to right with matrix, translate, scale, rotate (also about a point), skewX and skewY as SVG defines them and in every separator and white-space spelling. Where it was declared (group, shape or use, attribute or style) does not matter.",
     ["inputs"], "all nested lists of up to several functions with one or all optional arguments",
     "The tests never look at a transform.",
     ["parse.go", "matrix.go"], [("list reader", "parse.go parseTransform, readTransformAttr"), ("products", "matrix.go")],
     "property-based testing: generated transform lists against plain matrix arithmetic", SAMPLED + "Matrices are compared to 1e-9 relative to their size.")

prop("C10", "Matrix operations obey affine algebra",
     "For every matrix, multiplication is associative with Identity as neutral element and applies its right operand first; Transform and TransformVector agree with it; Translate, Scale, Rotate, SkewX and SkewY equal multiplication by their own matrix; the inverse of a regular matrix undoes it. Transforming fixed-point points and path operations agrees with the real transform to the last bit of the format, and the line width scale is the mean factor by which the matrix stretches lengths along the axes, unaffected by rotation of the image and by mirroring.",
     ["inputs"], "all matrices with elements over several orders of magnitude, and points within the fixed-point range",
     "There is no test of the matrix type.",
     ["matrix.go"], [("matrix arithmetic", "matrix.go")],
     "property-based testing: algebraic laws and a reference implementation", SAMPLED)

prop("C11", "The parsed document has the structure of the text",
     "Parsing returns exactly one path per drawable shape in document order, the titles and descriptions in order with their text, the view box and the size of the root element, and the masks by their id with their own content. Groups, definitions, gradients, masks, comments, unknown elements and namespaces add no paths by themselves and do not change what stands around them.",
     ["inputs"], "all documents built from every supported element, unknown elements, text, comments and nested svg elements",
     "The tests check the number of paths of one file.",
     ["svg.go", "svg_elements.go", "parse.go", "mask.go"], [("element dispatch", "parse.go readStartElement"), ("definitions and masks", "parse.go endDef, addPath; svg_elements.go maskF, defsF"), ("text", "svg.go Parse, titleF, descF")],
     "property-based testing: generated documents against a reference document model", SAMPLED)

prop("C12", "use draws the referenced element as if it stood in its place",
     "A use element draws all of the element in defs that it refers to, shifted by its x and y, with the use's style inherited by it and all its own styles and transforms kept, as many times as it is used, also through other uses. Replacing a use by a group with the same attributes around a copy of its target does not change the document. A use of an unknown id or of itself, however indirectly, is an error.",
     ["inputs", "programs"], "all documents whose definitions are shapes, groups and uses of each other, and all small reference graphs with and without cycles",
     "One icon contains a use; nothing about its result is tested.",
     ["svg_elements.go", "parse.go"], [("definitions store and replay", "svg_elements.go useF, parse.go endDef")],
     "property-based testing: reference model, inlining metamorphic relation and reference graphs", SAMPLED + "References to elements outside defs are outside the domain: the library only looks in defs.")

prop("C13", "Gradients carry what their elements say",
     "A shape painted with url(#id) of a linear or radial gradient defined before it gets a gradient with that element's vector or circles, units, spread method, transform and stops (offset, colour, opacity) with the defaults of the SVG specification, wherever it was defined. A stop without a colour takes the colour it would replace, and two shapes with the same gradient do not influence each other.",
     ["inputs"], "all gradient elements with any subset of attributes in any units, with any stops, referenced by fill or stroke",
     "No test looks at a gradient.",
     ["patterns.go", "svg_elements.go", "parse.go"], [("gradient readers", "svg_elements.go linearGradientF, radialGradientF, stopF; patterns.go readGradAttr"), ("references", "patterns.go readGradURL")],
     "property-based testing: generated gradients against a reference model", SAMPLED + "Gradient href inheritance is not supported by the library and outside the domain.")

prop("C14", "Error modes only decide about unsupported content",
     "In a document without malformed values, strict mode returns an error exactly when there is an unknown element, an unknown keyword of a style property or an unknown path command; the ignoring and warning modes then skip only that and return the rest (the children of an unknown element are drawn as those of a group); on fully supported documents the three modes return equal documents. Warnings are written in warning mode when there is something unsupported, and in no other mode.",
     ["inputs", "configurations"], "all documents with and without unsupported elements, keywords and path commands, in three modes",
     "The icon tests use one mode per file and do not compare results.",
     ["parse.go", "svg.go"], [("mode dispatch", "parse.go handleError")],
     "property-based testing: differential between error modes", SAMPLED)

prop("C15", "Reading does not depend on how the bytes arrive, and faults surface",
     "A document read in any chunk sizes, with any split, with data returned together with the end of file, from memory or from a file, gives the same result. A read error at any point is returned as an error, as is a document cut off anywhere inside its root element, a missing file, or an input without a root element; nothing is left open and a declared, known character encoding is honoured.",
     ["inputs", "fault_sequences"], "all generated documents, all chunkings, read faults and truncations at many offsets of each document",
     "The tests read complete files from disk in one encoding.",
     ["svg.go"], [("stream decoding", "svg.go Parse, ParseFile")],
     "property-based testing with fault injection in the reader", SAMPLED + "Up to 24 fault offsets are tried per document.")

prop("C16", "Parsing and drawing have no memory and no side effects",
     "What a document parses to does not depend on what was parsed, drawn or modified before or is done at the same time by other goroutines, and each result belongs to its caller alone. Drawing does not change the document: drawing it twice gives the same picture. Package-level defaults are never changed.",
     ["histories", "schedules", "inputs"], "all sequences of parses, modifications and drawings of generated documents, one after another and concurrently",
     "The tests parse each file once, in one goroutine.",
     ["svg.go", "svg_elements.go", "parse.go", "types.go", "renderer/draw2d/draw.go", "renderer/gg/draw.go", "renderer/rasterx/draw.go"],
     [("per-parse cursor", "svg.go Parse"), ("style copied by value, lists copied", "parse.go pushStyle")],
     "stateful property-based testing of call histories, with the race detector", SAMPLED + "Schedules are those the Go scheduler produces; the race detector reports unsynchronised access on any of them.")

prop("C17", "A path survives being written as SVG path data",
     "For every path of operations, writing it as path data gives the same commands in absolute form with every coordinate correct to a thousandth, and parsing that text again gives the same operations to within 1/64 of a unit. Building a path with the drawing calls records exactly those operations in order, and clearing empties it.",
     ["inputs", "histories"], "all sequences of operations with fixed-point coordinates",
     "There is no test of path output.",
     ["path.go", "parse_path.go"], [("operation strings", "path.go"), ("builder", "path.go Start, Line, QuadBezier, CubeBezier, Stop, Clear")],
     "property-based testing: round trip and model of the builder", SAMPLED)

prop("C18", "A target rectangle maps the view box exactly onto it",
     "With a target rectangle, the corners of the view box are drawn at the corners of the rectangle, linearly in between; without a target the document is drawn unscaled. A zero-sized view box or target never gives non-finite coordinates, options apply in the order given, and opacity is 1 unless it is given.",
     ["configurations", "inputs"], "all view boxes, targets and combinations of options",
     "There is no test of the render options.",
     ["renderer/options.go"], [("target matrix", "renderer/options.go")],
     "property-based testing: closed-form oracle", SAMPLED)

RND = "The oracle is an exact geometric model of the picture evaluated at pixel centres; pixels near edges, joins the library does not define and documented limits of the drawing libraries are left out (see DESIGN.md). "
prop("C19", "draw2d draws the picture the document describes",
     "Drawing a document with draw2d gives every pixel that lies clearly inside or outside of its shapes the colour its painting order, fill rule, fill and stroke colours, opacities, line widths, dashes, transforms and target say, for documents with any number of shapes and subpaths. Nothing else is painted. The picture is the one draw2d gives when it is called with each path and these settings.",
     ["inputs", "configurations"], "all scenes of filled, stroked and dashed paths with plain colours, transforms, targets and opacities",
     "No test draws anything.",
     ["renderer/draw2d/draw.go", "renderer/options.go", "matrix.go"], [("drawing", "renderer/draw2d/draw.go")],
     "property-based testing: rendered pixels against a geometric reference model, and against the drawing library called directly", RND)
prop("C20", "rasterx draws the picture the document describes",
     "Drawing a document with rasterx gives every pixel that lies clearly inside or outside of its shapes the colour its painting order, fill rule, fill and stroke paints, opacities, line widths, caps, joins, dashes, transforms and target say, with plain colours and with linear and radial gradients of all spread methods and units. Nothing else is painted. Caps, joins and gaps that SVG does not have, and gradients under any transform, come out as rasterx draws them.",
     ["inputs", "configurations"], "all scenes of filled, stroked and dashed paths with plain colours or gradients, transforms, targets and opacities",
     "No test draws anything.",
     ["renderer/rasterx/draw.go", "renderer/options.go", "matrix.go", "patterns.go"], [("drawing", "renderer/rasterx/draw.go")],
     "property-based testing: rendered pixels against a geometric reference model, and against the drawing library called directly", RND)
prop("C21", "gg draws the picture the document describes, masks included",
     "Drawing a document with gg gives every pixel that lies clearly inside or outside of its shapes the colour its painting order, fill rule, fill and stroke colours, opacities, line widths, round or butt caps, dashes, transforms and target say, and masks multiply what they cover by the luminance and opacity of their content. Nothing else is painted. The picture is the one gg gives when it is called with each path and these settings.",
     ["inputs", "configurations"], "all scenes of filled, stroked, dashed and masked paths with plain colours, transforms, targets and opacities",
     "No test draws anything.",
     ["renderer/gg/draw.go", "renderer/options.go", "matrix.go", "mask.go"], [("drawing and masking", "renderer/gg/draw.go")],
     "property-based testing: rendered pixels against a geometric reference model, and against the drawing library called directly", RND)
prop("C22", "From SVG text to pixels, pictures come out as SVG says",
     "Parsing a document and drawing it into a target rectangle with any of the three renderers gives, at every pixel clearly inside or outside of the shapes, the colour that the SVG specification gives the text: shapes, groups, styles, units, transforms, uses and view box taken together.",
     ["inputs", "configurations"], "all generated documents within the common features of the renderers, targets of any size",
     "No test draws anything.",
     ["svg.go", "parse.go", "svg_elements.go", "renderer/options.go", "renderer/draw2d/draw.go", "renderer/gg/draw.go", "renderer/rasterx/draw.go"],
     [("the whole pipeline", "svg.go, renderer")],
     "property-based testing: end-to-end pixels against a model that reads the generated document, not the library's result", RND)
prop("C23", "Opacity scales what is painted, and zero paints nothing",
     "The effective opacity of a fill or stroke is the product of the renderer's opacity, the fill or stroke opacity and the opacities of the element and its ancestors, whichever of them carries it; percentages equal their fractions and values out of range are clamped. At zero nothing is painted by any renderer.",
     ["inputs", "configurations"], "all scenes and documents with opacities at any level, with all renderers",
     "No test draws anything or looks at an opacity.",
     ["parse.go", "units.go", "renderer/options.go", "renderer/draw2d/draw.go", "renderer/gg/draw.go", "renderer/rasterx/draw.go"],
     [("opacity product", "parse.go readStyleAttr, readOpacity"), ("renderer opacity", "renderer/*/draw.go")],
     "property-based testing: metamorphic relations between opacities in different places", SAMPLED)
prop("C24", "Elements are painted one after another, independently",
     "With each renderer, drawing a document in two parts one over the other, splitting an element into its fill and its stroke, or inserting elements that paint nothing gives the same picture as drawing it at once. The picture does not depend on what was drawn with the same context before (on another area or with other settings), nor does drawing leave the context unusable for more drawing.",
     ["inputs", "histories"], "all scenes, cuts, invisible elements and context histories",
     "No test draws anything.",
     ["renderer/draw2d/draw.go", "renderer/gg/draw.go", "renderer/rasterx/draw.go"], [("per-element state", "renderer/*/draw.go")],
     "property-based testing: metamorphic relations between drawings", SAMPLED)
prop("C25", "Whatever parses can be drawn",
     "Every document that parses without error can be drawn with every renderer, into any image and target: drawing ends, does not panic, and leaves all pixels with valid colours. This includes empty documents, degenerate and dashed lines of zero length, cyclic masks and unusual styles.",
     ["inputs", "configurations"], "all accepted generated, mutated and soup inputs whose drawing is bounded, with all renderers and targets",
     "No test draws anything.",
     ["renderer/draw2d/draw.go", "renderer/gg/draw.go", "renderer/rasterx/draw.go", "renderer/options.go"], [("drawing", "renderer/*/draw.go")],
     "fuzzing: accepted inputs are drawn with every renderer, with invariants on the outcome", SAMPLED + "Coordinates are limited to 4000 pixels, as the drawing libraries overflow beyond their fixed-point range.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p, _, _ in P:
            f.write(json.dumps(p) + "\n")
    checks = [dict(property=p["id"], quick_cmd=f"VERIF_TIER=quick python3 check.py {p['id']}",
                   thorough_cmd=f"VERIF_TIER=thorough python3 check.py {p['id']}",
                   technique=t, level="exploration", level_note=n) for p, t, n in P]
    m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=[],
             notes="No hooks in /repo are needed: every check drives the exported API.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
