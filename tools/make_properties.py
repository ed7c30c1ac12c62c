"""Writes properties.jsonl.  Editing this list and re-running is the only way the file is changed."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=observe, hook_needed=None)))


TR = "pyrayt/_pyrayt.py"
CO = "pyrayt/components.py"
MA = "pyrayt/materials.py"
UT = "pyrayt/utils.py"
OP = "tinygfx/g3d/operations.py"
PR = "tinygfx/g3d/primitives.py"
WO = "tinygfx/g3d/world_objects.py"
CS = "tinygfx/g3d/csg.py"
RE = "tinygfx/g3d/renderers.py"

prop("C01", "Every traced segment ends at the nearest surface ahead of it",
     "In a trace, every recorded segment runs from the ray's start along its direction to the nearest boundary point of any component of the system that lies ahead of the start, and the recorded surface id is that of the surface owning this boundary point. No component in the path is skipped, and no boundary that lies behind the start, outside a surface's finite extent, or was removed by a boolean combination stops a ray.",
     ["inputs", "configurations"], "all systems of non-touching components (primitives and boolean combinations, any placement), all rays, all orders of listing the components",
     "The suite traces no multi-component scene at all; it checks single primitives with a few hand-picked rays.",
     [TR, CS, PR, WO], [("nearest-hit reduction over components", TR + ":RayTracer._st_propagate"), ("per-surface dispatch", TR + ":RayTracer._st_interact")],
     ["RayTracer.trace() result rows (x0..z1, tilts, surface)"])

prop("C02", "A ray's rows form one continuous, faithful chain",
     "Each emitted ray has its own id, and its rows carry generations 0,1,2,... with no gap or repeat; the first row starts at the emitted ray and every later row starts where the previous one ended, advanced along the new direction by the tracer's ray offset. Every value is finite, the tilt is the unit vector pointing from the row's start to its end, and with the built-in materials a ray's wavelength and intensity are the emitted ones on every row; trace() and get_results() report the same rows, numbered 0,1,2,...",
     ["inputs", "configurations"], "all systems, sources, numbers of rays and generation limits",
     "Continuity is a relation between rows of different generations of one ray; the suite never inspects result rows beyond a generation limit count.",
     [TR], [("row insertion", TR + ":_RayTraceDataframe.insert"), ("advance to next generation", TR + ":RayTracer._st_interact"), ("id assignment", TR + ":RayTracer._st_initialize")],
     ["RayTracer.trace()", "RayTracer.get_results()"])

prop("C03", "Rays end only for a documented reason, and every trace finishes",
     "A ray's chain of rows stops only because its last segment reached an absorber, its continuation meets no component, its intensity has fallen below the tracer's intensity threshold, or the generation limit is reached, and no chain continues past any of these. Every emitted ray with enough intensity that meets a component has a first row, no ray has more rows than the generation limit, and every trace finishes once that limit is reached.",
     ["inputs", "configurations"], "all systems including cavities that never lose a ray, attenuating materials, all thresholds and generation limits (including 0)",
     "The existing tests never reach the intensity threshold and trace one scene; termination reasons per ray are not compared to the scene.",
     [TR, MA], [("dead-ray mask and limit test", TR + ":RayTracer._st_interact"), ("absorber kills direction", MA + ":_AbsorbingMaterial.trace")],
     ["RayTracer.trace() rows per ray", "number of intersect() calls on a component during one trace"])

prop("C04", "Mirrors reflect by the law of reflection",
     "Wherever a traced ray meets a mirror surface, its next direction is the incoming direction reflected about the true geometric normal of that surface at the recorded hit point: equal angle, same plane of incidence, back to the side it came from. This holds for every surface shape, placement and non-uniform scaling, on outer and subtracted (inner) surfaces alike, and index, wavelength and intensity are unchanged.",
     ["inputs", "configurations"], "all mirror surfaces, placements, orientations and incoming rays",
     "Unit tests reflect a handful of vectors on fixed normals; they never combine scaled and rotated surfaces, subtraction and the tracer.",
     [MA, OP, WO, PR], [("reflect()", OP + ":reflect"), ("mirror material", MA + ":_ReflectingMaterial.trace"), ("world normals", WO + ":TracerSurface.get_world_normals")],
     ["consecutive result rows of one ray", "tinygfx.g3d.reflect", "materials.mirror.trace"])

prop("C05", "Glass surfaces obey Snell's law, including total reflection",
     "Wherever a ray meets a glass surface the new direction satisfies n1*sin(a1) = n2*sin(a2) in the plane of incidence, crossing the surface, where n2 is the glass index at the ray's own wavelength when it enters against the outward normal and the world index 1 when it leaves; past the critical angle it is reflected instead and keeps its index. The index on every result row is that of the medium the row travels through, and wavelength and intensity are unchanged.",
     ["inputs", "configurations"], "all glasses, wavelengths (mixed within one batch), surfaces, placements and angles of incidence up to grazing",
     "Unit tests check a few angles on one plane with one index pair; mixed batches of entering, leaving, totally reflected rays of different wavelength are not exercised.",
     [OP, MA, TR], [("refract()", OP + ":refract"), ("glass material", MA + ":Glass.trace")],
     ["consecutive result rows of one ray", "tinygfx.g3d.refract", "Glass.trace"])

prop("C06", "Ray/surface intersections are exact under any placement",
     "For every sphere, cylinder, cuboid, paraboloid and plane, after any sequence of moves, rotations and positive scalings, the distances intersect() reports for a ray are exactly the distances (in units of the given direction vector, negative behind the start) at which its line crosses the object's surface, in ascending order and infinite where there is no crossing, labelled with the object's id. This includes starts inside the object, rays pointing away, and rays parallel or nearly parallel to an axis, face or side wall; only tangent contacts and hits on an edge are left open.",
     ["inputs", "configurations"], "all shapes and dimensions, all placements, all rays",
     "Tests use unit shapes and a few axis-aligned rays; nearly axis-parallel rays, mixed batches, non-unit directions and sheared placements are never tried.",
     [PR, WO, OP], [("per-shape intersect", PR + ":Sphere/Paraboloid/Plane/Cube/Cylinder.intersect"), ("object-space transform", WO + ":TracerSurface.intersect"), ("binomial_root", OP + ":binomial_root")],
     ["TracerSurface.intersect", "SurfacePrimitive.intersect"])

prop("C07", "Surface normals are unit, perpendicular and point outward",
     "At every point of an object's surface away from edges, get_world_normals() returns a unit vector (fourth component 0) perpendicular to the surface at that point in its current placement, pointing out of the solid (for a plane: along its own +z axis). It points the opposite way exactly when subtractions by the boolean combinations containing it and inversions by the user add up to an odd number, and reset_normals() on a free-standing object or an outermost combination undoes the user's inversions.",
     ["inputs", "configurations"], "all shapes, placements with non-uniform scaling, boolean nestings, surface points, batch sizes including one",
     "Tests probe axis points of unit shapes; normal transformation under non-uniform scale and nested subtraction is not covered.",
     [WO, PR, CS], [("normal transform", WO + ":TracerSurface.get_world_normals"), ("per-shape normal", PR + ":*.normal"), ("inversion", CS + ":CSGSurface.__init__/invert_normals/reset_normals")],
     ["TracerSurface.get_world_normals", "SurfacePrimitive.normal"])

prop("C08", "Boolean solids are hit exactly where the set operation says",
     "A union, intersection or difference, nested to any depth and placed anywhere, reports along every ray exactly the distances at which the ray enters or leaves the point set defined by that operation on its children (for a plane as left child: the crossings of the part of the sheet outside the subtracted solid), in ascending order, each labelled with the child surface it lies on, and nothing else. It makes no difference whether children are disjoint, nested in one another, or have a different number of crossings per ray, nor how rays are batched.",
     ["inputs", "configurations"], "all boolean expression trees of solids with no coincident boundaries, all placements, all rays including starts inside",
     "Tests combine two unit spheres or cubes with axis rays; nested trees, ties between equal distances, and misses are not sampled.",
     [CS], [("array_csg", CS + ":array_csg"), ("CSGSurface.intersect", CS + ":CSGSurface.intersect")],
     ["CSGSurface.intersect", "csg.array_csg"])

prop("C09", "Bounding volumes always enclose, whatever the movement history",
     "The bounding volume of any object or boolean combination encloses every point of it in its current placement. After any sequence of movements applied to a combination, to any of its parts at any nesting level, or to both, the bounding volume and every reported hit equal those of the same combination freshly built from parts already in their final placement.",
     ["histories", "configurations"], "all boolean trees and all interleavings of moves on the whole and on its parts",
     "Tests move one child of a two-leaf union once; deeper nesting and later moves are not covered.",
     [CS, WO, PR], [("change propagation to parents", WO + ":Intersectable.attach_to"), ("composite box", CS + ":CSGSurface._update_bounding_box"), ("leaf box", WO + ":TracerSurface._boundary_box_update_fn")],
     ["Intersectable.bounding_volume", "bounding_box", "intersect"], [("_aobb", "axis-aligned bounding box used to pre-filter rays", WO + ":Intersectable")])

prop("C10", "An object's pose is the composition of the moves applied to it",
     "After any sequence of move, scale, rotate and transform calls an object's world transform is the ordered product of those operations in world axes, and position, orientation (of rigidly moved objects also as a quaternion), object transform and both coordinate conversions agree with it; matrices handed out are copies, and no later operation changes a position, orientation or matrix handed out before. Groups and boolean combinations carry each current member (nested ones once) through exactly the same operations, calls chain by returning the object, degrees and radians agree, and a rejected operation (non-positive scale, unknown angle unit) raises and leaves everything unchanged.",
     ["histories", "inputs"], "all sequences of pose operations on objects, groups, combinations, sources and cameras",
     "Tests apply one or two operations; long mixed histories with groups, nesting and rejected operations are not exercised.",
     [WO, CS], [("_append_world_transform", WO + ":WorldObject._append_world_transform"), ("group propagation", WO + ":ObjectGroup._append_world_transform"), ("composite propagation", CS + ":CSGSurface._append_world_transform")],
     ["get_world_transform", "get_object_transform", "get_position", "get_orientation", "to_world_coordinates", "to_object_coordinates"])

prop("C11", "pin restores every pinned object exactly on exit",
     "Leaving a pin context returns every pinned object, and with it every part carried by a pinned combination or group, to the placement it had on entry, whatever pose operations were applied to the pinned objects inside, whether the block ends normally, by return or by an exception (which still propagates), and also when pins nest or are re-entered one after another. Tracing after exit gives the results of tracing before entry.",
     ["histories", "fault_sequences"], "all sets of objects, all operation sequences inside, exceptions at any point",
     "No test raises inside the context or pins combinations with inner movement.",
     [TR], [("pin", TR + ":pin.__enter__/__exit__")], ["get_world_transform before/after", "intersect before/after"])

prop("C12", "A trace depends only on the current configuration",
     "The rows of trace() depend only on the current sources, the current components with their current placement and materials, and the current tracer settings: they equal those of a newly made tracer given the same configuration, no matter whether these were given singly or as any iterable, and which traces, resets, load_components calls, edits of the component list, moves, material changes, setting changes or reads came before. Getters report the last value set, get_system() is the live component list, and reset() clears the results.",
     ["histories"], "all histories of tracer API calls and edits of the system between traces",
     "Each unit test builds a new tracer and traces at most once.",
     [TR, CO, WO], [("re-initialisation", TR + ":RayTracer.reset/_st_initialize"), ("surface table", TR + ":RayTracer.__init__/load_components")],
     ["RayTracer.trace", "get_results", "get_system", "get_rays_per_source", "get_generation_limit"], [("_surface_lut", "surface id to surface table", TR + ":RayTracer")])

prop("C13", "Rays and components do not influence one another",
     "The path of one ray is the same whether it is traced alone, together with any other rays, in any order or batch, from one source or several, and whatever order the components are listed in, up to relabelling of ray ids. The same holds for intersect(), normals, materials and the vector helpers applied to a batch: column i of the result depends only on column i of the input.",
     ["inputs", "configurations"], "all batches, splits and permutations of rays; all permutations of components",
     "Metamorphic relation between several runs; tests compare single runs with constants.",
     [TR, CS, PR, OP, MA, WO], [("boolean masks over batches", TR + ":RayTracer._st_interact, " + CS + ":CSGSurface.intersect")],
     ["RayTracer.trace under permutation", "intersect() column by column"])

prop("C14", "Moving the whole scene moves the traced paths with it",
     "Applying one rigid motion to all sources and components of a system yields the same rows with start, end and tilt carried through that motion and everything else unchanged. Scaling the whole system uniformly scales starts and ends and leaves the rest unchanged, apart from the constant ray offset.",
     ["inputs", "configurations"], "all systems and all rigid motions and uniform scalings",
     "Metamorphic relation between two traces; not expressible as fixed expected values.",
     [TR, WO, PR, CS, CO], [("world/object transforms", WO + ":WorldObject"), ("source placement", CO + ":Source.generate_rays")],
     ["RayTracer.trace on the original and the moved system"])

prop("C15", "Line, circle, cone and wedge sources emit what they document",
     "A source asked for n rays returns exactly n: LineOfRays spaced evenly over [-spacing/2, spacing/2] along y (one ray: the origin), CircleOfRays evenly around a circle of the given diameter in the yz plane without repeating a point, both directed along +x; ConeOfRays (two or more) from the origin, evenly around x at the given angle to it; WedgeOfRays from the origin in the xy plane at evenly spaced angles over the full wedge. Whatever the source's placement, rays are these local rays (or those of a user's own Source subclass) carried through its world transform with unit directions, the source's current wavelength, index 1, generation 0, intensity 100 and ids 0..n-1, and repeated calls give equal, independent sets. Parameters not given take the documented defaults (spacing and diameter 1, wavelength 0.633).",
     ["inputs", "histories"], "all parameters, ray counts, placements and wavelength changes",
     "Tests check one placement and a few counts per source.",
     [CO, TR], [("per-source generation", CO + ":*._local_ray_generation"), ("placement", CO + ":Source.generate_rays"), ("defaults", TR + ":RaySet.__init__")],
     ["Source.generate_rays"])

prop("C16", "Lamps sample their documented distribution; static lamps are stable",
     "A Lamp's rays start uniformly over its width (y) by length (z) rectangle, with directions uniform over the cone of max_angle around its axis, intensity 100*cos of the angle to the axis, and fresh samples on every call. A StaticLamp returns the same local rays for the same count on every request however many other lamps or counts are used in between, following its current placement and wavelength, and changing a returned set never affects a later one.",
     ["inputs", "histories"], "all sizes, angles, placements, counts; all interleavings of requests, moves, wavelength changes and edits of returned sets over many lamps",
     "Tests take one sample of one lamp and never move it or use more than one lamp.",
     [CO], [("sampling", CO + ":_sphere_sample, Lamp._local_ray_generation"), ("caching", CO + ":StaticLamp.generate_rays")],
     ["Lamp.generate_rays", "StaticLamp.generate_rays"])

prop("C17", "Lens factories build the documented solids",
     "thick_lens, biconvex_lens and plano_convex_lens return, for every documented radius sign and infinity, thickness and aperture (circle, rectangle, ellipse), a solid whose boundary is exactly the documented one: first surface facing -x, second facing +x, vertices at -thickness/2 and +thickness/2, each with its own radius, cut by the aperture centred on the x axis in the yz plane with the stated y and z sizes. Every boundary surface carries the requested material (default ideal glass).",
     ["inputs", "configurations"], "all radii, thicknesses, apertures and materials in the documented domain; all rays and points",
     "Tests only check that the objects can be built, and one focal length.",
     [CO], [("lens factories", CO + ":thick_lens, biconvex_lens, plano_convex_lens"), ("aperture shape", CO + ":_create_aperture, _lens_full_thickness")],
     ["intersect() of the returned component", "surface materials via surface_ids"])

prop("C18", "Mirrors, prisms, baffles and apertures have the documented shape",
     "plane_mirror, spherical_mirror, parabolic_mirror, equilateral_prism, baffle and aperture return components whose hit points are exactly the documented surfaces, for every aperture kind, off-axis shift, sign of curvature, zero or positive thickness and infinite radius the documentation allows; y and z sizes are not exchanged. Reflecting parts are exactly the documented optical surface, every other part of a curved mirror and all of a baffle or aperture stop absorbs, and rays through an opening pass untouched.",
     ["inputs", "configurations"], "all documented parameters; all rays",
     "Only construction and one aperture example are exercised by tests.",
     [CO], [("mirror factories", CO + ":plane_mirror, spherical_mirror, parabolic_mirror"), ("prism, baffle, aperture", CO + ":equilateral_prism, baffle, aperture")],
     ["intersect() of the returned component", "trace rows through it"])

prop("C19", "Optical systems image as first-order theory predicts",
     "Traced paraxial rays through a lens made by the factories come to the focus given by the lensmaker's equation (utils.lensmakers_equation, measured from the principal plane), for each glass and wavelength; parallel rays on a parabolic mirror meet at its focus for any aperture and off-axis shift, a point source at the focus is collimated, spherical mirrors focus paraxially at half the radius, and a prism deviates rays by the amount Snell's law predicts.",
     ["inputs", "configurations"], "all lens shapes, glasses, wavelengths, mirrors and placements within the paraxial regime",
     "One integration test checks a few biconvex focal lengths with one material.",
     [CO, TR, UT, MA, OP], [("whole trace pipeline", TR + ":RayTracer.trace"), ("lensmaker's equation", UT + ":lensmakers_equation")],
     ["RayTracer.trace rows", "utils.lensmakers_equation"])

prop("C20", "Light paths are reversible",
     "If a ray travels a path through mirrors and lenses, a ray launched from the path's last segment in the opposite direction, with that segment's index, retraces the same surfaces and hit points in reverse order up to the ray offset.",
     ["inputs", "configurations"], "all lossless systems and all rays away from edges and grazing incidence",
     "Relation between two traces; no test runs a ray backwards.",
     [TR, MA, OP, WO], [("interaction laws and hit selection", TR + ":RayTracer._st_propagate/_st_interact, " + MA)],
     ["RayTracer.trace of forward and reversed rays"])

prop("C21", "Glass index models follow their published formulas",
     "index_at() of a SellmeierRefractor equals the Sellmeier equation for its coefficients, and that of a BasicRefractor is its constant, for every wavelength in the formula's domain, giving a float for a float and an equally shaped array for an array without changing its argument. The catalogue glasses BK7, SF5, SF2 and ideal have their published indices, and abbe() equals (nD-1)/(nF-nC) from the instance's own index_at, independent of other instances.",
     ["inputs"], "all coefficients and wavelengths, scalar or array",
     "Tests compare a few tabulated values of BK7.",
     [MA], [("index models", MA + ":BasicRefractor.index_at, SellmeierRefractor.index_at"), ("abbe", MA + ":Glass.abbe"), ("catalogue", MA + ":glass")],
     ["Glass.index_at", "Glass.abbe"])

prop("C22", "Rendered pictures agree with the geometry",
     "Every pixel of a shaded or edge rendering is decided by the nearest surface in front of the camera along that pixel's ray: pixels whose ray meets nothing are transparent, shaded pixels show the material of the nearest surface, and edge pixels mark where that surface changes. draw() looks at the scene from +z ('xy') or from -y ('xz') wherever the scene is located, and places the picture so that its extent covers the components' bounding volume at the right coordinates and orientation, with one or several components.",
     ["inputs", "configurations"], "all scenes, placements relative to the origin, cameras, resolutions and aspect ratios",
     "Tests render one sphere at the origin and check shapes only.",
     [RE, WO, "tinygfx/g3d/materials/gooch.py"], [("renderers", RE + ":EdgeRender, ShadedRenderer"), ("draw", RE + ":draw, _draw_xy, _draw_xz"), ("camera rays", WO + ":OrthographicCamera.generate_rays")],
     ["renderer.render()", "AxesImage array and extent after draw()"])

prop("C23", "show() plots exactly the recorded segments and changes nothing",
     "After a trace, show() draws one arrow per result row from (x0,y0) to (x1,y1) for view 'xy' or (x0,z0) to (x1,z1) for 'xz', in the colour of the row's wavelength or of the source its ray came from as requested, plus the drawing of the components; before a trace it draws the components only. It never changes results, settings or the system.",
     ["inputs", "configurations", "histories"], "all results, views, colour functions, numbers of sources and rays, histories of setting changes between trace and show",
     "No test calls show().",
     [TR], [("show", TR + ":RayTracer.show")], ["matplotlib Quiver and AxesImage artists after show()"])

prop("C24", "Wavelength colours follow the piecewise-linear spectrum",
     "wavelength_to_rgb maps each wavelength to the documented piecewise-linear visible spectrum raised to gamma, with values between 0 and 1, wavelengths beyond 0.38-0.75 um clipped to the ends, continuous across the zone limits, one RGB row per input element in input order, for floats, lists and arrays.",
     ["inputs"], "all wavelengths, shapes and gammas",
     "Tests check a few wavelengths.",
     [UT], [("zones", UT + ":wavelength_to_rgb")], ["utils.wavelength_to_rgb"])

prop("C25", "Tracing and querying have no side effects",
     "Tracing, intersecting, computing normals, refracting, reflecting, shading, rendering and generating rays change none of: their input arrays, the pose, bounds, materials or normals of any component or source, or answers and results already returned by any query or tracer. Tracers sharing components or sources therefore give the same results when run interleaved or in parallel threads as when run alone.",
     ["histories", "schedules", "inputs"], "all interleavings of traces, queries and renders of tracers that share components, including threads",
     "Tests never compare inputs before and after, nor share objects between tracers.",
     [TR, OP, WO, PR, CS, MA, RE], [("copy before modification", TR + ":RayTracer._st_interact"), ("out-of-place vector maths", OP + ":refract, reflect")],
     ["snapshots of all inputs and objects before and after each call"])

prop("C26", "Every row is attributed to the source that emitted its ray",
     "Ray ids are assigned source by source in list order, so ids k*n..(k+1)*n-1 belong to source k for n rays per source; row data at generation 0 match that source's rays. calculate_source_ids() adds to every row the index of the source that emitted its ray, also if rays per source was changed after the trace, for any number of sources, rays and surviving rows.",
     ["inputs", "histories"], "all numbers of sources and rays per source, all patterns of surviving rays, setting changes after the trace",
     "No test calls calculate_source_ids or traces several sources.",
     [TR], [("id assignment", TR + ":RayTracer._st_initialize"), ("attribution", TR + ":RayTracer.calculate_source_ids")],
     ["result rows id/source_id", "Source.generate_rays outputs recorded per call"])

prop("C27", "A RaySet's named fields are consistent views of one memory",
     "Reading or writing rays, metadata, generation, intensity, wavelength, index or id of a RaySet, its copies, slices and concatenations always refers to the same fixed rows: a write through one name is seen through every other name of that set and changes nothing else. New sets hold points with w=1, zero directions, the documented defaults and ids 0..n-1, and a copy never shares memory.",
     ["histories", "inputs"], "all sizes (including 0 and 1), all sequences of reads, writes, slices, copies and concatenations",
     "Tests set each field once.",
     [TR], [("RaySet", TR + ":RaySet")], ["RaySet fields"])

prop("C28", "Quadratic root helpers return the true roots",
     "For all real coefficients smallest_positive_root returns the smallest non-negative real root of a*x^2+b*x+c (infinity if there is none), for every non-zero leading coefficient, negative and tiny ones included, and binomial_root returns both real roots, the single root of a linear equation, or infinities where there is no root, within the rounding error of the quadratic formula. Each column is independent of the others.",
     ["inputs"], "all finite coefficient triples and batch compositions away from double roots",
     "Tests use a few integer coefficients.",
     [OP], [("roots", OP + ":smallest_positive_root, binomial_root")], ["operations.smallest_positive_root", "operations.binomial_root"])

prop("C29", "Surface ids identify exactly one leaf surface each",
     "Every surface has an id different from every other object's, constant for its life, and surface_ids of a component lists each of its leaf surfaces exactly once with its id, for any nesting, before and after moves; the ids reported by intersect() and in result rows are always among those listed, and changing the material of a listed surface changes how exactly that surface acts.",
     ["configurations", "histories"], "all component trees, creation orders and edits",
     "Tests build one object at a time.",
     [WO, CS, TR], [("ids", WO + ":CountedObject"), ("listing", CS + ":CSGSurface.surface_ids"), ("lookup", TR + ":RayTracer._surface_lut")],
     ["surface_ids", "intersect() labels", "result rows surface"])

prop("C30", "Materials act on exactly the rays that hit, and their answer propagates",
     "In every generation of a trace the material of a surface is asked to trace exactly the rays whose nearest hit is on that surface, each once, positioned at its hit point with its incoming direction, wavelength, intensity and index, and is given that surface. Whatever direction, index, wavelength and intensity the material returns for a ray are what that ray continues with and what its next row records.",
     ["inputs", "configurations"], "all systems with user-defined materials, shared between surfaces or not, that change any of direction, index, wavelength and intensity",
     "No test uses a user-defined material.",
     [TR, MA], [("material dispatch", TR + ":RayTracer._st_interact")], ["arguments and return value of material.trace()", "next result row"])

prop("C31", "Points, vectors, rays, colours and plane figures are faithful values",
     "A Point has w=1 and a Vector w=0, coordinates not given are 0, a Ray defaults to the origin and +x, a colour to black with alpha 1. Their named fields (x, y, z, w; origin, direction; r, g, b, a) read and write exactly the element they name, normalize() gives the three spatial coordinates unit length in place and returns the object, and constructing, bundling and copying take the values and never share memory or defaults with other objects; the predefined colours keep their values. Disk and Rectangle contain exactly the points of the figure, element_wise_dot is the dot product per column or row, a bounding box spans exactly its points, and a primitive's own radius or focus never depends on placement.",
     ["histories", "inputs"], "all arguments given by position, name or left out; all histories of reads and writes over many objects",
     "Tests set a few fields of single objects; sharing between objects, defaults after writes, and the plane figures are not tried.",
     [PR, OP, WO, "tinygfx/g3d/materials/color.py"], [("coordinates and rays", PR + ":HomogeneousCoordinate, Point, Vector, Ray, bundle_of_rays, bundle_rays"), ("figures", PR + ":Disk, Rectangle"), ("helpers", OP + ":element_wise_dot, " + WO + ":bounding_box")],
     ["fields of Point, Vector, Ray, RGBAColor", "point_in_shape", "element_wise_dot", "bounding_box"])

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(path, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
