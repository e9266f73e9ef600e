prop("C18", "A screw is its thread profile swept along the requested helix",
     "A screw of any thread form (library or user supplied), length, pitch, number of starts and handedness contains a point iff its profile, placed at the pitch phase of the point's angle and height and thinned or widened by the taper, contains the point's radius, within the screw's length. Turning by an angle equals advancing along the axis by the lead, the reported bounds contain the solid, and invalid parameters give an error, not a panic.",
     ["inputs"], "all thread forms, lengths, pitches, starts, tapers and points",
     "Existing tests compare pictures of single screws; a wrong phase, hand or slope that keeps the picture similar, or fails only for several starts or negative tapers, passes.",
     ["form3/obj3/thread/thread.go", "form3/obj3/thread/parameters.go"],
     [("Screw", "form3/obj3/thread/thread.go")],
     "Generated library and user-defined profiles; the reference evaluates its own piecewise linear outline at the helix phase.",
     "property-based testing: generated threads against an independent helix model; metamorphic helix relation")

prop("C19", "Thread profiles have the dimensions of their standard",
     "The profile of ISO, UTS, Acme, ANSI buttress, plastic buttress and NPT threads has, for every diameter and pitch, the flank angles, crest and root positions and widths of its standard and repeats with the pitch, and the parameters report its radius, pitch, starts, taper and hex sizes. Profiles scale with the unit of length, and every nominal NPT size selects the tabulated pipe diameter and pitch.",
     ["inputs"], "all thread forms, diameters, pitches, fits and nominal sizes",
     "Existing tests compare rendered pictures of single sizes; an error of a few percent of the pitch at the root is not visible in them.",
     ["form3/obj3/thread/iso.go", "form3/obj3/thread/uts.go", "form3/obj3/thread/acme.go", "form3/obj3/thread/ansibuttress.go", "form3/obj3/thread/plasticbuttress.go", "form3/obj3/thread/npt.go", "form3/obj3/thread/parameters.go"],
     [("thread profiles", "form3/obj3/thread/{iso,uts,acme,ansibuttress,plasticbuttress,npt}.go")],
     "Outlines written from the standards; radius of the profile found by bisection at generated positions along the pitch; scaling relation.",
     "property-based testing against outlines written from the standards; metamorphic scaling")

prop("C20", "Bolts, nuts, heads and knurls are built to their parameters and fit",
     "A bolt is a head of the chosen style with the thread's hexagon size on one side, a shank of the given length and a threaded stem up to the total length; a nut is a head with the internal thread cut through; heads and knurls have the requested size, rounding and pitch. An internal thread with at least the external one's tolerance leaves room for the bolt, and invalid parameters give errors, not panics.",
     ["inputs"], "all thread forms, styles, lengths, tolerances, head sizes, knurl pitches and points",
     "Existing tests compare one picture per object.",
     ["form3/obj3/thread/bolt.go", "form3/obj3/thread/nut.go", "form3/obj3/thread/hexhead.go", "form3/obj3/thread/knurl.go"],
     [("Bolt, Nut, HexHead, KnurledHead, Knurl", "form3/obj3/thread/{bolt,nut,hexhead,knurl}.go")],
     "References assembled from independent cylinders, hexagons and screws; bolt-in-nut clearance. BoltParms.Tolerance is a known finding (an image test pins its being ignored).",
     "property-based testing against an assembled reference model; metamorphic fit relation")

prop("C21", "Error-returning constructors match their panicking twins",
     "For any parameters each constructor of form2 and form3 either returns an error exactly where the function of the same name in must2 or must3 panics, or returns a solid with the same distances and bounds; it never panics itself. Negative radii, missing sizes of 3D solids, roundings that do not fit a cylinder or cone and polygons of less than three vertices are rejected, valid parameters accepted, and a chamfered cylinder has the chamfers it was asked for.",
     ["inputs"], "all parameters, valid or not",
     "Existing tests call the constructors with valid parameters only.",
     ["form2/basic.go", "form2/poly.go", "form3/basic.go", "form2/must2/errors.go", "form3/must3/errors.go"],
     [("error-returning wrappers", "form2/*.go, form3/basic.go")],
     "Generated parameters around the boundaries of validity; differential testing of the two packages.",
     "property-based differential testing of the two constructor packages")

prop("C22", "Panels and standoffs have the holes, webs and sizes asked for",
     "A panel is the rounded rectangle of the given size (for Eurorack panels the size of the standard for its U and HP) less exactly the mounting holes its pattern and margins describe, flat or extruded to its thickness; a panel hole and a standoff consist of the described cylinders, webs, holes and tab notches. Invalid dimensions give an error, not a panic.",
     ["inputs"], "all panel, panel hole and standoff parameters and points",
     "Existing tests render one or none of each.",
     ["form2/obj2/panel.go", "form3/obj3/panel.go", "form3/obj3/standoff.go"],
     [("Panel, EuroRackPanel, PanelHole3D", "form2/obj2/panel.go, form3/obj3/panel.go"), ("Standoff", "form3/obj3/standoff.go")],
     "References assembled from rectangles, circles, cylinders and triangles at hole positions computed separately.",
     "property-based testing against an assembled reference model")

prop("C23", "Unit constants and print materials scale as documented",
     "Inch and millimetre constants are mutually inverse with 25.4 mm per inch wherever they are exported. A material compensates any solid for its shrinkage by the exact uniform scale and widens internal dimensions by its allowance, the ideal material leaving both unchanged.",
     ["inputs"], "all solids, points and dimensions",
     "No existing test covers them.",
     ["helpers/matter/3dprint.go", "form3/must3/util.go", "form2/obj2/panel.go"],
     [("materials", "helpers/matter/3dprint.go"), ("unit constants", "form3/must3/util.go, form2/obj2/panel.go")],
     "Generated solids compared with the explicitly scaled field.",
     "property-based metamorphic testing")

prop("C24", "Evaluating and rendering are pure, repeatable and safe to share",
     "A solid's value at a point and its bounds are the same whenever they are asked, in any order, from any number of goroutines at once without data races, before and after the solid served as operand of other solids or was rendered; concurrent renders of one model equal the ones made alone. Constructors neither write to the slices they are given nor depend on them afterwards, and a polygon builder's vertices can be read again.",
     ["inputs", "histories", "schedules"], "all solids, evaluation orders, interleavings of readers, later uses of the caller's slices",
     "Existing tests evaluate each solid once, from one goroutine.",
     ["sdf2.go", "sdf3.go", "form2/must2/poly.go", "render/march3.go", "form3/obj3/thread/thread.go"],
     [("Evaluate and Bounds methods", "sdf2.go, sdf3.go"), ("polygon builder", "form2/must2/poly.go"), ("renderer", "render/*.go")],
     "Solids of all kinds x evaluation histories and goroutines; results compared bit for bit; binary built with the race detector as well.",
     "property-based and stateful testing: evaluation histories, goroutine interleavings under the race detector")

prop("C25", "Imported meshes evaluate to the signed distance of their triangles",
     "For any set of triangles the solids made by ImportModel and ImportModelV2 evaluate to a value whose magnitude is the distance to the nearest triangle, with the bounds of the vertices; for a closed surface the value is negative exactly inside. Results do not depend on the order of triangles, a small enough vertex tolerance or the number of goroutines, a render of a solid imports as that solid up to the cell size, and importing ends, with an error for unusable tolerances and empty models.",
     ["inputs", "schedules"], "all triangle sets, closed or not, tolerances, points, concurrent readers",
     "Existing test imports one file and only looks at the picture; wrong distances or signs near edges, other triangle orders or thin features do not show.",
     ["helpers/sdfexp/import.go", "helpers/sdfexp/spatial3.go", "helpers/sdfexp/bih.go"],
     [("ImportModel", "helpers/sdfexp/import.go"), ("ImportModelV2", "helpers/sdfexp/bih.go")],
     "Generated closed surfaces (stars, balls, tori, cavities, pairs, renders) and soups; points near faces, edges and vertices; oracle is the distance to every triangle and the winding number.",
     "property-based testing against brute force distance and winding number; metamorphic tolerance and render round trip")

prop("C26", "Tetrahedral meshes fit face to face and fill the solid",
     "UniformTetrahedronMesh returns tetrahedra with valid finite nodes of which at most two share a face, on opposite sides; they cover every point further than two cells inside the solid once and none further than two cells outside. For solids with exact distances the nodes on the outside of the mesh lie in the surface, and the tetrahedra are not folded over.",
     ["inputs"], "all solids, resolutions and points",
     "Existing test only meshes one part and looks at the picture; overlaps, gaps and nodes left inside the solid do not show.",
     ["helpers/sdfexp/basicmesh.go", "helpers/sdfexp/bccmesh.go", "helpers/sdfexp/omesh.go"],
     [("UniformTetrahedronMesh", "helpers/sdfexp/{basicmesh,bccmesh,omesh}.go")],
     "Generated solids, pairs with a gap, and resolutions, some with nodes exactly in the faces; hull of the tetrahedra by face counting, winding number of the hull, distance of hull nodes.",
     "property-based testing: mesh invariants, winding number of the hull against the solid")
