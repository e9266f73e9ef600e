#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, q, why, files, mech, note, technique="property-based testing: generated solids/operations against an independent reference model", state=None):
    m = [{"name": a, "where": b} for a, b in mech]
    anchors = {"files": files, "mechanism": m}
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": q},
               "why_tests_cant": why, "anchors": anchors}, technique, note))


IMG = "Existing tests render a few fixed models and compare triangle counts or images; "

prop("C01", "Primitive shapes measure the exact signed distance",
     "Every basic 2D and 3D shape (circle, rectangle and line segment, box, sphere, cylinder, cone; sharp or rounded, down to zero length and up to full rounding) evaluates at any point to the exact Euclidean signed distance of the shape its parameters describe, negative inside, zero on the surface and positive outside. Boxes, spheres and cylinders report the tight axis-aligned bounding box of their shape; every other primitive's bounding box contains it.",
     ["inputs"], "all valid shape parameters, all finite query points",
     IMG + "none evaluates a primitive at arbitrary points or with arbitrary rounding.",
     ["form2/must2/basic.go", "form2/must2/poly.go", "form3/must3/cylinders.go", "sdf2.go", "sdf3.go"],
     [("shape constructors and Evaluate methods", "form2/must2/basic.go, form3/must3/*.go")],
     "Generated parameters (incl. extremes: rounding equal to the half size, zero cap radius) x low-discrepancy, near-surface and axis points; closed-form distances written separately.")

prop("C02", "Bounding boxes contain the whole solid",
     "For every 2D or 3D object built from the library's shapes and operations (without user-supplied blend functions), every point where the object evaluates to a negative value lies inside the box the object reports as its bounds. A renderer that trusts the bounds therefore never cuts a part off.",
     ["inputs", "programs"], "all expression trees of operations over valid parameters, all points",
     IMG + "a box that is too small for other parameters cuts geometry off silently.",
     ["sdf2.go", "sdf3.go", "internal/d2/box.go", "internal/d3/box.go", "matrix.go"],
     [("Bounds methods and boxes computed by constructors", "sdf2.go, sdf3.go"), ("box algebra", "internal/d2/box.go, internal/d3/box.go")],
     "Random operation trees (depth <=3); query points in a grown reference box, on the surface by bisection, and beyond each face of the reported bounds.")

prop("C03", "Union, difference and intersection are the set operations",
     "A point is inside a union iff it is inside at least one operand, inside a difference iff inside the first and not the second, inside an intersection iff inside both, and cutting with a plane or line keeps exactly the chosen half. With default (sharp) joining the value is the minimum (union) or the maximum (with the subtracted operand negated), whatever the number, order, distance or nesting of operands, including operands that are empty. An operand that is missing (nil) is refused by a panic when the operation is built.",
     ["inputs", "programs"], "all operand solids (any number for unions) and all query points",
     IMG + "the 2D union prunes operands by bounding box, which is only right if it holds for every arrangement and point.",
     ["sdf2.go", "sdf3.go"],
     [("boolean constructors, union pruning", "sdf2.go Union2D/Difference2D/Intersect2D/Cut2D"), ("3D booleans", "sdf3.go Union3D/Difference3D/Intersect3D/Cut3D")],
     "Random operands (primitives and trees), many-operand unions far apart/nested, empty operands; membership and value against the reference field.")

prop("C04", "Transforms move solids exactly, matrices obey their algebra",
     "A transformed object contains a point iff the original contains the point mapped back through the transform, for any composition of translations, rotations about any axis, mirrors and scalings; uniform scaling multiplies distances by the factor, rigid transforms preserve them. Matrices compose, add, invert and take determinants consistently with applying the steps one after the other to points, transformed boxes contain the image of the box, and integer vectors add and convert component by component.",
     ["inputs", "programs"], "all sequences of steps, solids and points",
     IMG + "matrices and inverse application are exercised for a couple of fixed angles at most.",
     ["matrix.go", "sdf2.go", "sdf3.go", "internal/d2/transform.go", "internal/d3/transform.go"],
     [("matrix types", "matrix.go"), ("Transform, Scale, Center", "sdf2.go, sdf3.go")],
     "Sequences of up to five generated steps; the reference maps points step by step with its own rotation formula.")

prop("C05", "Patterns place exactly the requested copies",
     "Arrays, rotational copies and unions, line patterns, multi-position and orientation patterns contain a point iff some requested copy of the object contains it, copies being placed exactly where the parameters say and keeping their handedness. Patterns of no copies are empty and of one copy are that copy.",
     ["inputs"], "all objects, counts (including 0 and 1), step vectors, angles, directions, points",
     IMG + "one or two patterns with symmetric objects; wrong sectors or mirrored copies of asymmetric objects are not visible.",
     ["sdf2.go", "sdf3.go"],
     [("Array, RotateCopy, RotateUnion, LineOf, Multi, Orient", "sdf2.go, sdf3.go")],
     "Asymmetric generated objects, counts 0..7, arbitrary steps; reference is the minimum over explicitly placed copies.")

prop("C06", "Extrusion, revolution, lofting and slicing follow their 2D profile",
     "An extruded (plain, rounded, twisted, scaled, scaled and twisted), revolved (any angle) or lofted solid contains a point iff the profile, transformed as requested for that height or angle, contains the corresponding 2D point; a slice through a solid contains a 2D point iff the solid contains its 3D position on the slicing plane. The values are finite everywhere, and impossible heights, roundings or angles give an object that contains nothing.",
     ["inputs"], "all profiles, heights, twists, scales, angles, rounding radii, slicing planes and points",
     IMG + "a fixed profile per operation, seen from one camera.",
     ["sdf3.go", "sdf2.go"],
     [("Extrude, TwistExtrude, ScaleExtrude, ScaleTwistExtrude, ExtrudeRounded, Loft, Revolve", "sdf3.go"), ("Slice2D", "sdf2.go")],
     "Generated asymmetric profiles; reference membership computed from the profile's reference field.")

prop("C07", "Offset, shell and elongation change solids by the requested amount",
     "An offset object has the original's distance reduced by the offset; a shell contains exactly the points whose distance to the original surface is below half the thickness; an elongated object contains a point iff the original contains it after removing the elongation along each axis.",
     ["inputs"], "all objects, offsets, thicknesses, elongation vectors and points",
     IMG + "each operation at most once with one parameter.",
     ["sdf2.go", "sdf3.go"], [("Offset, Shell, Elongate", "sdf2.go, sdf3.go")],
     "Generated objects and parameters incl. negative offsets; pointwise reference.")

prop("C08", "Blend functions obey the laws of smooth joining and reach every operand",
     "Every blending minimum is symmetric where documented so, never exceeds the plain minimum, equals it once the operands differ by more than the blend width, and equals its documented formula; the blending maximum mirrors it. Setting a blend on a union, pattern, difference or intersection yields that blend folded over all of its operands, at every point.",
     ["inputs", "programs"], "all pairs of distances, blend parameters, operand counts and positions, query points",
     IMG + "blends are visible in one image; nothing checks operands far from the query point or zero/negative distances.",
     ["utils.go", "sdf2.go", "sdf3.go"],
     [("RoundMin, ChamferMin, ExpMin, PowMin, PolyMin, PolyMax", "utils.go"), ("SetMin / SetMax of unions, differences, patterns", "sdf2.go, sdf3.go")],
     "Independent formulas; folds over 2..6 operands at arbitrary distances.")

prop("C09", "Reported distances never skip over the surface",
     "For solids built by exact operations (shapes, sharp unions, intersections, differences, rigid and uniform transforms, patterns, extrusions, revolutions, offsets, shells, elongations) the absolute value at a point never exceeds the Euclidean distance from it to the solid's surface. A sphere tracer or the culling renderer may therefore step by that value without missing geometry.",
     ["inputs", "programs"], "all such expression trees, query points and surface points",
     IMG + "an overestimate loses triangles only at some resolution and cell alignment.",
     ["sdf2.go", "sdf3.go", "render/octree_renderer.go"],
     [("Evaluate methods", "sdf2.go, sdf3.go"), ("cell culling by distance", "render/octree_renderer.go")],
     "Surface points found by bisection of the object's own field; every query point is compared with all surface points.")

prop("C10", "The polygon builder produces the described outline",
     "The vertices a polygon builder returns are those described by the calls: absolute, relative and polar positions, arcs that start and end at their vertices, stay at the given radius on the requested side with the requested facets, fillets that are tangent to both edges, chamfers cutting both edges equally, and the drop, close and reverse operations. Impossible requests (arc radius too small, fillet that does not fit, folded or collinear corners, relative position without predecessor) never give non-finite vertices.",
     ["inputs", "histories"], "all sequences of builder calls and parameters",
     "Existing tests build a few fixed profiles inside threads and images; the vertex lists are never checked.",
     ["form2/must2/poly.go", "form2/poly.go"],
     [("PolygonBuilder and vertex modifiers", "form2/must2/poly.go")],
     "Stateful generation of builder call sequences against a model that recomputes every vertex (arc, fillet, chamfer) independently.",
     "model-based property testing: generated call sequences against a reference builder")

prop("C11", "Polygons measure the exact distance to any simple outline",
     "A polygon evaluates to the exact signed Euclidean distance to its outline, negative inside by winding, for either vertex order, concave outlines, collinear or repeated vertices and points level with vertices. It does not modify nor depend later on the caller's vertex slice, and its bounds are the tight box of the vertices.",
     ["inputs"], "all simple polygons (convex, concave, axis aligned, repeated and collinear vertices) and query points",
     IMG + "sign errors at points level with a vertex appear only for special coordinates.",
     ["form2/must2/poly.go"], [("Polygon Evaluate", "form2/must2/poly.go")],
     "Star, rectilinear and comb polygons incl. duplicate vertices; queries on vertex rows; brute force distance with angle-sum winding.")

prop("C12", "Rendered meshes are closed and consistently oriented",
     "For any solid strictly inside its bounds, at any resolution, the rendered triangles form a closed surface: every edge is shared by equally many triangles in either direction (after merging points that coincide up to rounding), there are no degenerate or non-finite triangles, and normals point outward so that the enclosed signed volume is positive.",
     ["inputs", "configurations"], "all solids and cell counts, including faces exactly on sampling planes and noisy fields",
     IMG + "none checks closedness, which depends on 256 corner configurations times degenerate positions.",
     ["render/marchingcubes.go", "render/octree_renderer.go"],
     [("marching cubes tables and interpolation", "render/marchingcubes.go"), ("octree traversal", "render/octree_renderer.go")],
     "Random trees, random noise fields (reaching every corner configuration), aligned faces; edge balance and winding numbers.")

prop("C13", "Rendered meshes follow the solid with no part missing",
     "Every mesh vertex lies on the solid's surface to within the cell size (quadratically better on smooth surfaces), and every point farther than a cell from the surface is enclosed by the mesh iff it is inside the solid; features larger than a cell are never dropped by the renderer's culling.",
     ["inputs", "configurations"], "all solids with non-overestimating distance, resolutions, query points",
     IMG + "missing parts at other resolutions or alignments cannot show.",
     ["render/octree_renderer.go", "render/marchingcubes.go"],
     [("isEmpty culling and octree subdivision", "render/octree_renderer.go"), ("vertex interpolation", "render/marchingcubes.go")],
     "Generalised winding number of the mesh at generated points against the solid's sign; second-order vertex error on smooth solids.")

prop("C14", "Triangle streaming loses, repeats and invents nothing",
     "Reading a renderer with any sequence of buffer sizes, sequentially or with concurrent evaluation at any goroutine count, yields the same set of triangles, then the end-of-stream condition, and stays there. Collecting all triangles works for any renderer that obeys the reader contract (short reads, empty reads, data along with the end or an error), errors are passed on, the triangle buffer is first-in first-out, and an empty solid renders to nothing.",
     ["inputs", "histories", "schedules"], "all buffer size sequences, goroutine counts, scheduling, scripted renderers",
     "Existing tests use a single fixed buffer size and one renderer.",
     ["render/render.go", "render/io.go", "render/octree_renderer.go"],
     [("ReadTriangles, RenderAll, triangle buffer", "render/*.go")],
     "Histories of buffer sizes; scripted mock renderers; concurrent mode in a race-detector build.",
     "property-based and stateful testing: generated read histories, differential against one-shot reading, race-detector build")

prop("C15", "STL files contain exactly the model's triangles",
     "Writing or creating a binary STL stores a header with the exact triangle count and every triangle once, in single precision with its unit normal and vertex order, with nothing before or after, whatever the renderer's chunking and whatever the file held before. Errors of the renderer or of the destination at any byte are reported.",
     ["inputs", "fault_sequences"], "all triangle lists, renderers, write failures at any offset, pre-existing files",
     "Existing tests write a few models and compare them through the library's own reader.",
     ["render/stl.go"], [("WriteSTL, CreateSTL", "render/stl.go")],
     "Independent binary STL parser; injected writer failures at every generated offset; oversize old files; models larger than the internal buffers.",
     "property-based testing with an independent parser and injected write faults")

prop("C16", "The STL reader returns what was written or an error",
     "Reading a binary STL that the library wrote returns the same triangles in order for any way the input arrives in pieces, including end-of-input signalled with the last bytes. Truncated, over-long counts, corrupted normals, non-finite data and arbitrary bytes give an error or the valid triangles of the file, never a panic, endless loop or memory use out of proportion to the input.",
     ["inputs", "fault_sequences"], "all triangle lists, damages, read chunkings",
     "Existing tests read two fixed files from a full reader.",
     ["render/stl.go"], [("binary STL reader", "render/stl.go readBinarySTL")],
     "Round trips and structured damage through an in-package overlay test; chunked and failing readers.",
     "property-based testing and structured fuzzing through a test overlay")

prop("C17", "3MF files round-trip the mesh with shared vertices",
     "A 3MF file written from triangles, opened by following the package's relationships as a consumer does, holds one build item whose mesh has the same triangles bit for bit in single or better precision, with coincident corners sharing one vertex index, so that a closed mesh stays closed by index. A file that cannot be created or written is reported.",
     ["inputs"], "all triangle lists, including rendered solids",
     "The existing test writes one file and does not read it back.",
     ["render/3mf.go"], [("Write3MF / Create3MF", "render/3mf.go")],
     "Independent zip + XML consumer; soups with shared vertices and rendered solids, index-manifold test.",
     "property-based round-trip testing with an independent consumer")

exec(open(os.path.join(V, "tools", "props2.py")).read()) if os.path.exists(os.path.join(V, "tools", "props2.py")) else None

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p, _, _ in P:
        f.write(json.dumps(p) + "\n")
man = {"version": 1, "setup_cmd": "python3 setup.py",
       "hooks": {"guard": "verif", "enable": "no hooks are needed: the checks build /repo as it is (in-package tests come in through go test -overlay)", "source_commits": []},
       "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                   "technique": t, "level": "exploration", "level_note": n} for p, t, n in P],
       "not_applicable": []}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
for p, _, _ in P:
    assert len(p["title"]) <= 80, p["title"]
    assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
