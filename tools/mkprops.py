#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

TR = "pvtrace/algorithm/photon_tracer.py"; KX = "pvtrace/engine/_kernel.pyx"
API = "pvtrace/engine/api.py"; COMP = "pvtrace/material/component.py"; SURF = "pvtrace/material/surface.py"
MAT = "pvtrace/material/material.py"; MU = "pvtrace/material/utils.py"; SC = "pvtrace/scene/scene.py"
RAY = "pvtrace/light/ray.py"; NODE = "pvtrace/scene/node.py"; DIST = "pvtrace/material/distribution.py"

prop("C01", "Every ray's history is one complete, well-formed life story",
 "Every traced ray, in the Python tracer and in the compiled engine, yields exactly one GENERATE event, first, and exactly one terminal event (EXIT, NONRADIATIVE, REACT or KILL), last. Every ABSORB is immediately followed by exactly one of EMIT, SCATTER, NONRADIATIVE or REACT for the same component in the same container, and none of those four ever occurs without its ABSORB. No event follows a terminal event and no ray that meets the world boundary continues.",
 ["histories", "inputs"], "all scenes of nested or touching boxes, spheres and cylinders with any mix of components and surfaces, all rays generated inside the world, all random draws, all step and event budgets",
 "The tests follow a handful of rays through two or three fixed scenes; the grammar has to hold after every sequence of surface and volume events, including when an event budget ends mid-step.",
 [TR, KX, API], [("step_forward event loop", TR+":step_forward"), ("trace_one event loop", KX+":trace_one"), ("history reconstruction", API+":EngineResult.histories")],
 ["photon_tracer.step_forward", "photon_tracer.follow", "EngineResult.histories()"])

prop("C02", "A ray is always attributed to the volume it is really in",
 "At every event the reported container is the innermost volume that contains the path segment the ray has just travelled, and at a surface the adjacent volume is the one on the other side of that surface. After TRANSMIT the next segment lies in the adjacent volume and after REFLECT it stays in the container, so no ray passes through a volume boundary without an event there. The hit reported is a volume whose surface contains the event position, and EXIT happens exactly at the world's surface.",
 ["inputs", "histories"], "all nested scenes (depth up to 5, boxes, spheres, cylinders, arbitrary rigid poses, face-sharing siblings) and all rays generated inside the world off any surface",
 "Tests check container and adjacent for a few axis-aligned rays; the innermost-volume rule depends on the whole set of intersections, their order and ties, which varies without bound.",
 [TR, KX, SC, NODE, "pvtrace/geometry/box.py", "pvtrace/geometry/sphere.py", "pvtrace/geometry/cylinder.py"],
 [("container choice", TR+":find_container"), ("next interface", TR+":next_hit"), ("kernel next hit", KX+":trace_one"), ("scene intersections", SC+":Scene.intersections")],
 ["event metadata hit/container/adjacent", "EngineResult.data"])

prop("C03", "Ray state changes only as physics allows between events",
 "Between consecutive events the ray moves in a straight line along its current direction: the position advances by exactly the increase in distance travelled, which is never negative, and the elapsed time increases by refractive index of the container times that distance over the speed of light, plus a non-negative lifetime delay only at EMIT or at the non-radiative end of an absorption. Direction changes only at REFLECT, TRANSMIT, EMIT and SCATTER and is always a unit vector; wavelength changes only at EMIT; the recorded source changes only at EMIT or SCATTER, to the name of the responsible component. EMIT, SCATTER, NONRADIATIVE, REACT and KILL happen where the previous event happened.",
 ["inputs", "histories"], "all scenes, materials (indices, lifetimes), rays and draws, in both tracers",
 "Tests assert positions of a few events; travelled, duration, source and wavelength conservation must hold at every step of every history.",
 [RAY, TR, COMP, SURF, KX], [("propagation", RAY+":Ray.propagate"), ("emission and lifetimes", COMP+":Luminophore.emit"), ("kernel bookkeeping", KX+":trace_one")],
 ["Ray fields on every event"])

prop("C04", "Surfaces obey the reflection and refraction laws",
 "At a Fresnel surface a reflected ray leaves at the mirror direction, a transmitted ray obeys Snell's law in the plane of incidence and continues across the surface, total internal reflection always reflects, and otherwise the ray reflects exactly when its random draw is below the unpolarised Fresnel reflectance of the two indices and the incidence angle. A null surface always transmits with direction unchanged. The outcome does not depend on the pose of the nodes, on which side of the surface the ray comes from, or on the sign of the surface normal.",
 ["inputs", "configurations"], "all index pairs, incidence angles (including normal, Brewster, grazing, critical and beyond), surfaces of boxes, spheres and cylinders, arbitrary rigid node poses, and all draws; both tracers",
 "Tests compare a few angles of the reflectivity formula; they do not tie the event, the outgoing direction and the draw together through node transforms and for all index orders.",
 [SURF, MU, TR, KX], [("Fresnel delegate", SURF+":FresnelSurfaceDelegate"), ("formulas", MU+":fresnel_reflectivity"), ("kernel optics", KX+":fresnel_reflectivity")],
 ["REFLECT/TRANSMIT events"])

prop("C05", "Absorption depth and component choice follow the coefficients",
 "A ray is absorbed before the next surface exactly when its exponential free path, for the sum of the attenuation coefficients of the container's components at the ray's wavelength, is shorter than the distance to that surface, and then at that depth. The component credited is chosen in proportion to its share of the sum, so a component with zero coefficient at that wavelength is never chosen and a volume with zero total coefficient never absorbs. Only components of the container take part, never those of neighbouring or enclosing volumes.",
 ["inputs", "configurations"], "all component sets (0 to 4 components), constant and tabulated coefficient spectra, wavelengths, path lengths and draws; both tracers",
 "Tests use one component or compare a mean; the choice depends on every coefficient at the current wavelength and on the draw.",
 [MAT, COMP, DIST, KX, "pvtrace/engine/compiler.py"], [("free path", MAT+":Material.penetration_depth"), ("component choice", MAT+":Material.component"), ("kernel absorption", KX+":trace_one")],
 ["ABSORB events"])

prop("C06", "The fate of an absorbed ray is decided by its component",
 "An absorber always ends the ray as NONRADIATIVE and a reactor always ends it as REACT; a scatterer re-radiates as SCATTER and a luminophore as EMIT exactly when the draw is below its quantum yield, and otherwise both end as NONRADIATIVE. When both lifetimes are given the yield is the non-radiative lifetime over the sum of both. A radiative lifetime delays emission and a non-radiative lifetime delays the end with exponentially distributed delays of those means.",
 ["inputs", "configurations"], "all component types, quantum yields in [0,1], lifetimes and draws; both tracers",
 "Tests check yields 0 and 1 for single components; outcome mapping must hold for every type, yield and draw, and in every mixture.",
 [COMP, TR, KX, "pvtrace/engine/compiler.py"], [("radiative decision", COMP+":Scatterer.is_radiative"), ("event mapping", TR+":step_forward"), ("kernel fate", KX+":trace_one")],
 ["events after ABSORB"])

prop("C07", "Re-emission respects the emission spectrum and the chosen method",
 "An emitted wavelength always lies inside the emission spectrum's range and is distributed as the spectrum: with the full method over all of it, with the redshift method restricted to wavelengths not shorter than the absorbed one, and with the thermal method restricted to wavelengths not shorter than the absorbed energy plus three halves of kT allows. The method requested for the simulation is the one applied to every emission, in both tracers. Scattering keeps the wavelength, and directions follow the component's phase function in the container's frame.",
 ["inputs", "configurations"], "all emission spectra (uniform grids), absorbed wavelengths within range, the three methods, all draws; both tracers",
 "Tests check that some emitted rays are red-shifted in one scene; the bound and the distribution must hold for each method, spectrum and draw.",
 [COMP, DIST, KX, "pvtrace/engine/compiler.py"], [("emission", COMP+":Luminophore.emit"), ("inverse sampling", DIST+":Distribution.sample"), ("kernel emission", KX+":trace_one")],
 ["EMIT events"])

prop("C08", "Step, path and event budgets always end a ray, and only then kill it",
 "A ray is killed as soon as, and only if, it has completed the allowed number of steps or (Python tracer) travelled further than the allowed path length, at its current position and before any further interaction; a ray that leaves the scene or is absorbed within its budget is never killed. In the compiled engine a history also ends in a KILL as its last stored event when its event budget runs out, and it never holds more events than that budget. Every trace call therefore terminates.",
 ["inputs", "histories"], "all budgets (steps 0..n, path lengths, event budgets 2..n), scenes including totally reflecting traps and unit-yield luminophores, and draws",
 "Tests kill one ray in one trapped scene; off-by-one behaviour at the boundary between budget and natural end shows only for particular combinations of budget and history length.",
 [TR, KX, API], [("kill test", TR+":step_forward"), ("kernel kill and budget", KX+":trace_one")],
 ["KILL events"])

prop("C09", "The compiled engine is interchangeable with the Python tracer",
 "For every scene the engine accepts, it generates the same kinds of histories with the same probabilities as the Python tracer: every engine history is one the Python tracer could produce (same events, volumes, components, positions, directions, wavelengths, times and sources), and wherever the physics is deterministic the two histories are equal event by event. This includes the order in which lights are used and the step budget.",
 ["inputs", "configurations"], "all scenes in the supported subset, all lights, emit methods and step budgets",
 "Tests compare a few aggregate fractions in a few scenes with wide tolerances; equality must hold per history and for every combination of geometry, surface, component and pose.",
 [KX, API, "pvtrace/engine/compiler.py", "pvtrace/engine/emit.py", TR], [("table compilation", "pvtrace/engine/compiler.py:CompiledScene"), ("kernel", KX+":trace_one"), ("reconstruction", API+":EngineResult.histories")],
 ["EngineResult.histories() against photon_tracer.step_forward"])

prop("C10", "Recorder tallies equal what the histories say, for every traced ray",
 "Each recorder's ray count is the number of distinct rays with at least one interaction matching its node, event kind and facet, and its crossing count is the number of matching interactions. Means, deviations and histograms are taken over each ray's first matching interaction only, with positions in the owning node's frame, bins half-open from the lower edge, and values outside the range left out. The engine's tallies over all rays and the reference tally over recorded histories agree.",
 ["histories", "configurations"], "all recorder sets (events, facets with tolerance, 1-D and 2-D histograms over every property), scenes, worker counts and rays whose history fits the event budget",
 "Tests compare totals for one or two recorders; first-crossing-only semantics, facet filters, bin edges and node frames interact.",
 [KX, API, "pvtrace/engine/tally.py", "pvtrace/engine/recorder.py", "pvtrace/engine/compiler.py"], [("kernel tally", KX+":tally"), ("reference tally", "pvtrace/engine/tally.py:tally_histories"), ("result view", API+":RecorderResult")],
 ["EngineResult.recorders", "tally_histories"])

prop("C11", "A seeded engine run is reproducible whatever the scheduling",
 "For one scene, seed and ray set, the engine's histories and tallies are the same for every number of worker threads and every run; a ray's history does not depend on how many rays are traced with it or on which rays have their history stored, and storing fewer histories changes no tally while no event budget runs out. Streaming in bundles gives the union of what a single run gives, for scenes whose lights emit deterministically and bundles that are a multiple of the number of lights.",
 ["schedules", "configurations"], "all worker counts, bundle sizes, history sampling rates, seeds and scenes",
 "Tests compare one or two worker counts once; the property ranges over all thread schedules and all ways to split the run.",
 [KX, API, "pvtrace/engine/emit.py"], [("per-ray random streams", KX+":rng_seed"), ("per-thread accumulators", KX+":trace_bundle"), ("stream offsets", API+":simulate_stream")],
 ["EngineResult.data", "EngineResult.recorders"])

prop("C12", "A simulation throws exactly the requested rays, shared fairly by the lights",
 "A simulation of N rays with any number of workers returns exactly N histories (or feeds exactly N throws to the queue). Rays are taken from the lights in turn, in scene order, so that the k-th ray comes from light k modulo the number of lights, with its position and direction expressed in the world frame. A seed given with one worker reproduces the run, a seed with several workers that actually share the work is refused, and otherwise the workers use different random sequences.",
 ["inputs", "schedules", "configurations"], "all ray counts, worker counts (also more workers than rays), light sets and poses, seeds, with and without a queue, with and without end-rays filtering",
 "Tests run a couple of counts with one or two workers; remainders, worker counts above the ray count and light cycling are all combinations.",
 [SC, "pvtrace/light/light.py", "pvtrace/engine/emit.py"], [("work partition", SC+":Scene.simulate"), ("light cycling", SC+":Scene.emit"), ("bundle emission", "pvtrace/engine/emit.py:emit_bundle")],
 ["Scene.simulate results and queue items", "Scene.emit", "emit_bundle"])

prop("C13", "Every event of every throw is stored once, in order, under its own throw",
 "When a simulation streams to a database, every event put on the queue by any worker is stored exactly once, with its own ray, and no two throws are ever merged, whatever the order in which the workers' events interleave and however tasks are shared among worker processes. Reading the rows of one throw in insertion order gives the history of that throw. The command finishes once, and only after, everything produced has been stored.",
 ["schedules", "histories"], "all interleavings of up to several workers' event streams, including a worker process that runs more than one task, and all event kinds",
 "Tests run the command once with small ray counts; interleavings and the reuse of a worker process are decided by the scheduler.",
 ["pvtrace/cli/main.py", SC, "pvtrace/data/schema.sql"], [("writer", "pvtrace/cli/main.py:monitor_queue"), ("rows", "pvtrace/cli/main.py:write_ray"), ("producers", SC+":do_simulation_add_to_queue")],
 ["rows of the ray and event tables", "termination of the command"],
 [("queue", "events in flight", SC), ("throw numbering", "maps producer and index to a throw", "pvtrace/cli/main.py:monitor_queue")])

prop("C14", "An interrupted database run leaves a readable, consistent prefix",
 "If the writing process dies at any point, the database opened afterwards contains a whole number of events: every event row refers to an existing ray row and every ray row has its event row, with no half-written pair. The stored events of each throw are a prefix of that throw's history, and everything reported as stored before the crash is still there.",
 ["crash_points", "fault_sequences"], "a crash between any two database operations while any number of events of any interleaving are being written",
 "No test interrupts a run; the statement is over every crash point.",
 ["pvtrace/cli/main.py", "pvtrace/data/schema.sql"], [("ray then event then commit", "pvtrace/cli/main.py:monitor_queue"), ("schema", "pvtrace/data/schema.sql")],
 ["the database file after a crash"])

prop("C15", "Database queries count and list exactly the rays they describe",
 "Count queries return the number of distinct throws with a matching interaction: entering, reflected or escaping a named node, lost, reacted or killed in it, restricted to the facet normal within tolerance and to the source when given. Spectrum and time queries list, for the same selections, one value per distinct throw and value pair. Running with only end rays stored changes no answer to any of these queries.",
 ["inputs", "configurations"], "all databases produced by any set of histories, all combinations of node, facet components, tolerance and source options",
 "Tests check a few counts on one database; the options combine and the distinct-throw rule only matters when a throw interacts repeatedly.",
 ["pvtrace/cli/db.py", "pvtrace/cli/count.py", "pvtrace/cli/spectrum.py", "pvtrace/cli/time.py", SC], [("SQL builders", "pvtrace/cli/db.py"), ("end-ray filter", SC+":is_end_ray")],
 ["CLI output", "query functions"])

prop("C16", "Every query command reports its selection faithfully in each output form",
 "For any database and selection, the spectrum and time commands write the same values whichever output form is asked for: raw values are listed in full, histograms count every value once in the bin that contains it, and the row counts and totals agree with the count command's selection. The commands succeed on every selection that matches at least one throw.",
 ["inputs", "configurations"], "all databases, selections and output forms",
 "Tests call some commands with default options; the cross product of selection and output form is untested.",
 ["pvtrace/cli/spectrum.py", "pvtrace/cli/time.py", "pvtrace/cli/count.py"], [("output handling", "pvtrace/cli/spectrum.py:handle_output"), ("time output", "pvtrace/cli/time.py:handle_output")],
 ["CLI stdout and files"])

prop("C17", "A scene file means exactly the scene it describes",
 "Parsing a valid scene description builds the node tree it describes: every node with its name, geometry and dimensions, pose (location, rotation, direction), material index, surface kind, components and light, attached under the node it should be under, with defaults exactly where the description is silent. Components referenced by a material are attached to that material and nothing else, and recorders to their node. An invalid description is rejected with an error and never yields a partial scene.",
 ["inputs", "configurations"], "all documents allowed by the schema over all node, geometry, surface, component, light, mask, spectrum and recorder forms, and mutated invalid documents",
 "Tests parse a few sample files; each optional field and form multiplies the cases.",
 ["pvtrace/cli/parse.py", "pvtrace/data/pvtrace-schema-scene-spec.json"], [("parser", "pvtrace/cli/parse.py:parse"), ("schema", "pvtrace/data/pvtrace-schema-scene-spec.json")],
 ["the Scene object returned"])

prop("C18", "Node poses compose and invert consistently across the scene graph",
 "Converting a point or direction from one node's frame to another's composes the poses along the tree path, so that converting through any intermediate node gives the same result, converting there and back is the identity, and lengths and angles are kept. Translations are in the parent's frame and never turn the node; rotations turn the node about its own location and never move it; pointing a node makes its +z face along the given direction whatever that direction's length. The current location always agrees with the pose after any sequence of such operations.",
 ["histories", "inputs"], "all trees up to small depth, all sequences of translate, rotate, look-at, location and pose assignments, all pairs of nodes",
 "Tests apply single operations; sequences of operations across tree paths grow without bound.",
 [NODE, "pvtrace/geometry/transformable.py", "pvtrace/geometry/transformations.py"], [("path composition", NODE+":Node.transformation_to"), ("pose updates", "pvtrace/geometry/transformable.py:Transformable"), ("pointing", NODE+":Node.look_at")],
 ["Node.point_to_node / vector_to_node", "Node.location, Node.pose"])

prop("C19", "Shapes report every crossing, side and outward normal exactly",
 "For every ray, the intersections reported for a box, sphere or cylinder are exactly the points where the ray's line ahead of its origin crosses the shape's surface, each on the surface and in order along the ray. The normal at a surface point is the outward unit normal, a point is classified as on the surface, inside or outside consistently with the solid, and a direction is entering exactly when it points against the outward normal. A scene merges the crossings of all its nodes in order of distance.",
 ["inputs"], "all dimensions, origins (inside, outside, on the surface), directions including axis-parallel ones, and node poses",
 "Tests check a few rays per shape; edge-parallel rays, origins on surfaces and poses vary without bound.",
 ["pvtrace/geometry/box.py", "pvtrace/geometry/sphere.py", "pvtrace/geometry/cylinder.py", "pvtrace/geometry/utils.py", SC, NODE], [("shape intersections", "pvtrace/geometry/utils.py"), ("merge and order", SC+":Scene.intersections")],
 ["Geometry.intersections/normal/contains/is_on_surface/is_entering", "Scene.intersections"])

prop("C20", "The engine accepts exactly the scenes it can trace faithfully",
 "A scene that uses anything the engine does not model (a mesh, a custom surface delegate or phase function, a histogram spectrum, a non-rigid pose, a missing world geometry or material, duplicate recorder names, a facet on a volume recorder, too many recorders) is refused with the unsupported-scene error before any ray is traced. A scene made only of supported parts is always accepted, and compiling never changes the scene.",
 ["configurations", "inputs"], "all combinations of supported and unsupported features placed on any node of the tree",
 "Tests try a few unsupported features at the top level; any feature may sit on any node and a missed one silently changes the physics.",
 ["pvtrace/engine/compiler.py", API], [("gate", "pvtrace/engine/compiler.py:CompiledScene")],
 ["compile_scene / simulate raising UnsupportedSceneError"])

prop("C21", "A studio document change is applied entirely or not at all",
 "Any edit or replacement of the document that is rejected leaves the document served and the compiled scene exactly as they were; an accepted one makes the document, the scene described to the client and the scene that is traced all describe the same thing. Saving writes exactly the current document, and reloading the saved file gives the same document and scene, so every name and number written by an edit is read back with the same value.",
 ["histories", "fault_sequences"], "all sequences of valid and invalid edits, replacements, uploads, saves and reloads",
 "Tests send a few single requests; the property is about every sequence that mixes accepted and rejected changes.",
 ["pvtrace/studio/server.py", "pvtrace/cli/parse.py"], [("apply", "pvtrace/studio/server.py:Studio.apply"), ("endpoints", "pvtrace/studio/server.py")],
 ["HTTP API responses", "saved file"],
 [("document, scene, dirty flag", "what the studio serves and traces", "pvtrace/studio/server.py:Studio")])

prop("C22", "Each studio edit changes exactly what it names",
 "Each edit operation (set, move, add or delete node, component and recorder operations) changes the entry it names as asked and nothing else in the document, and refuses names that do not exist or are taken, values that give no valid scene, and deleting a node that others hang from. Deleting a node also removes its recorders and deleting a component removes every reference to it; set writes its value at the path given; move writes the position to six decimals and keeps what it does not mention; added face recorders cover each face once.",
 ["histories", "inputs"], "all sequences of edit operations on all documents up to small size",
 "Tests apply a few operations to one document; frame conditions and reference integrity are about all sequences.",
 ["pvtrace/studio/server.py"], [("patch operations", "pvtrace/studio/server.py:_patch")],
 ["PATCH responses and GET document"])

prop("C23", "A studio run streams one scene, stops when told, and adds up",
 "While a run is streaming, every update describes the scene the run was started with, ray totals never decrease and never exceed the number asked for, and counts in the updates are the running sums of what was traced. After a stop is acknowledged, or a new run is started, no further update of the old run arrives; a run that is not stopped ends after exactly the requested number of rays. At most one run per connection is active at any time.",
 ["schedules", "histories"], "all interleavings of run, stop, edits and streaming steps on a connection",
 "Tests run once and stop once; stop followed by run, run during run and edit during run are timing dependent.",
 ["pvtrace/studio/server.py", API], [("run loop", "pvtrace/studio/server.py"), ("stop flag", "pvtrace/studio/server.py")],
 ["websocket messages"])

prop("C24", "The studio only writes where it is meant to",
 "An upload writes one .csv or .txt file with exactly the given content directly in the folder of the open document, whatever its name contains, or is refused and writes nothing; saving writes only the document itself. No request, accepted or rejected, leaves any other file behind (temporary files included), and documents never run code.",
 ["inputs", "fault_sequences"], "all client-supplied names (separators, parent references, absolute paths, hidden names, empty names) and failing checks",
 "Tests upload a well-behaved name; containment is about every name.",
 ["pvtrace/studio/server.py"], [("upload", "pvtrace/studio/server.py")],
 ["files on disk after a request"])

prop("C25", "The LSC device accounts for every ray exactly once",
 "After simulating an LSC device every thrown ray has exactly one stored first interaction and one stored fate: the facet it finally left by, lost when it was absorbed and not emitted again, given up when the tracer ended it, or missed when it never met the device. What spectrum, counts and summary report are exactly the stored rays selected by kind, facet, origin and event; incident rays and fates add up, near/far/left/right mean the same sides for solar cells and counts, and simulating again accumulates. The device is the one requested: solar cells let every ray through undeviated, the back mirror and the air gap mirror reflect every ray (specularly, or lambertian upwards), other faces refract and reflect by the indices given, and components act at the requested coefficients.",
 ["inputs", "histories"], "all device sizes, indices, component, light and facet-treatment (mirror, solar cell) combinations, and sequences of simulate and report calls",
 "Only one smoke test touches the device; conservation has to hold for every configuration and repeated runs.",
 ["pvtrace/device/lsc.py"], [("simulation store", "pvtrace/device/lsc.py:LSC.simulate"), ("report", "pvtrace/device/lsc.py:LSC.summary")],
 ["LSC.spectrum, LSC.counts, LSC.summary"])

prop("C26", "Samplers draw exactly the distribution they describe",
 "Sampling a spectrum with a probability and looking the value up again are inverse to each other and monotone, sampled values never leave the range of the data, and the sampled density is proportional to the tabulated values. Light masks and angular distributions stay within their declared extent (rectangle, circle, cube, cone, upper hemisphere), fill it with their declared density, and always give unit directions; the vectorised emission of the engine draws the same distributions as the per-ray one.",
 ["inputs", "configurations"], "all tabulated spectra (uniform and non-uniform grids, interpolated and histogram), mask sizes, cone angles, asymmetry factors and draws",
 "Tests sample a few distributions; bounds, monotonicity and density are statements about every table and draw.",
 [DIST, MU, "pvtrace/light/light.py", "pvtrace/engine/emit.py"], [("inverse sampling", DIST+":Distribution"), ("masks", "pvtrace/light/light.py"), ("phase functions", MU), ("vectorised", "pvtrace/engine/emit.py")],
 ["Distribution.sample/lookup", "Light.emit", "emit_bundle"])

prop("C27", "The renderer draws each history as recorded and leaks nothing",
 "Each ray or history is drawn along its recorded path, shortened or completed as asked, in the colour of its wavelength, and every node is drawn at its global pose with its own shape. The renderer keeps on display at most the configured number of ray histories, dropping whole histories oldest first, and every object drawn for a dropped or removed history disappears from the scene with it. Removing or clearing never touches objects of other histories or of the scene's nodes.",
 ["histories"], "all sequences of adding, removing and clearing rays and histories with any lengths, limits and drawing options, and all node trees",
 "No test counts displayed objects over a long sequence or compares what is drawn with the history.",
 ["pvtrace/scene/renderer.py"], [("bounded store", "pvtrace/scene/renderer.py:MeshcatRenderer")],
 ["objects present in the viewer"])

prop("C28", "Components have exactly the spectra, yield and lifetimes they were given",
 "In every documented form - a number, a two-column array, a list or tuple of values or of functions with wavelengths, as curve or histogram, with a default emission where none is given - the absorption, scattering and emission of a component are exactly the described spectra, and it answers every wavelength with them. Quantum yield, lifetime and the kind of component (absorber, scatterer, luminophore, reactor) are as described. A description with no documented meaning is refused when the component is made, not later during a trace.",
 ["inputs", "configurations"], "all forms of describing coefficients and emission, wavelength grids, values and kinds of component",
 "Tests build a few components from numbers and arrays; the other documented forms and the refusal of the rest are not exercised.",
 ["pvtrace/material/component.py", DIST], [("forms", "pvtrace/material/component.py:Component"), ("spectra", DIST+":Distribution")],
 ["Component.coefficient", "Component emission draws", "exceptions on construction"])

prop("C29", "A mesh is the solid its triangles enclose",
 "For any closed mesh, whatever its shape, pose or size, containment, boundary membership, the crossings of a line and the outward normal at a surface point are those of the solid the triangles enclose. Rays traced through scenes with nested meshes are attributed to the volumes they are really in and meet every boundary exactly once, also inside shapes which are not convex.",
 ["inputs", "configurations"], "all closed triangle meshes, convex or not, at all poses and sizes the tracer can tell apart, and all lines and rays which miss edges and vertices",
 "Tests intersect one convex mesh with a ray or two; concave shapes, several crossings and nesting need every configuration of solid and line.",
 ["pvtrace/geometry/mesh.py", SC, TR], [("crossings", "pvtrace/geometry/mesh.py:Mesh.intersections"), ("containment", "pvtrace/geometry/mesh.py:Mesh.contains"), ("volume", TR+":find_container"), ("next volume", TR+":next_hit")],
 ["Mesh.contains/is_on_surface/intersections/normal", "Scene.intersections", "photon_tracer.follow"])

prop("C30", "Custom surfaces, phase functions and lights are asked once and obeyed",
 "A user's surface delegate is asked at every encounter with its surface, and only there: once for the reflectivity and then once for the direction of what was decided, in its own node's frame, with the geometry, container and adjacent volume of that encounter; a custom phase function is asked once per emission or scattering, and custom light delegates once per ray. The answers are obeyed exactly, transformed into the frame of the world. An answer which has no meaning is refused with an error when it is given rather than traced on.",
 ["inputs", "histories", "configurations"], "all delegates and callables a user may supply, all answers, node poses, nestings, rays and draws",
 "Tests subclass one delegate in one axis-aligned scene; order, number and frame of the questions have to hold along every history at every pose.",
 [SURF, MAT, COMP, "pvtrace/light/light.py", TR], [("surface delegate", SURF+":Surface"), ("phase function", COMP+":Component"), ("light delegates", "pvtrace/light/light.py:Light.emit")],
 ["calls received by user supplied delegates", "following event and ray"])

prop("C31", "Optical formulas, colours and bundled spectra are the physics they name",
 "The reflectivity, reflected direction and refracted direction pvtrace computes are those of Fresnel and Snell for unpolarised light, at every incidence and for every pair of indices: they lie in [0,1] or have unit length, do not depend on the sign of the normal, are the same travelled backwards, and total reflection sets in exactly at the critical angle. Converting a spectrum between wavelength and energy keeps its values, is undone by the opposite conversion and leaves its argument as it was. Thermodynamic emission is the absorption weighted by the thermal photon density at the temperature, with maximum one; the line-shape helpers and the bundled dye spectra have the centre, width and peak they document; every wavelength has one colour, with channels from 0 to 255, black outside the visible, and the packed colour is that of the channels.",
 ["inputs"], "all index pairs, incidence angles and normals, all spectra, temperatures and line shapes, all wavelengths",
 "Tests compare the reflectivity at a few angles and one or two colours; the identities between the formulas have to hold on a continuum.",
 [MU, "pvtrace/light/utils.py", "pvtrace/data/lumogen_f_red_305.py", "pvtrace/data/fluro_red.py"], [("Fresnel and Snell", MU+":fresnel_reflectivity"), ("conversion and emission", MU+":thermodynamic_emission"), ("colours", "pvtrace/light/utils.py:wavelength_to_rgb")],
 ["return values of the public functions"])

prop("C32", "Commands replace a database only with consent; the live view shows the truth",
 "The simulate command replaces what is at the place of its database only when told to with --overwrite or when the user agrees on being asked; otherwise, and when the scene cannot be read, it fails and the database, the scene and every other file are left byte for byte as they were, and one which succeeds leaves the database of exactly its own throws. Queries and show never change a file. With a viewer, simulate first draws the scene and then draws only complete histories of throws of its own run, each at most once and in the order traced - every one but possibly the last of a worker when asked to render each - and what it stores is not changed by being viewed.",
 ["histories", "configurations"], "all sequences of commands, edits of the scene and replacements of the database, all answers and options",
 "Tests run simulate once in an empty folder; what may be lost depends on what was there, what was asked and answered, and at which point a command fails.",
 ["pvtrace/cli/main.py", "pvtrace/cli/parse.py", "pvtrace/cli/count.py", "pvtrace/cli/spectrum.py", "pvtrace/cli/time.py"], [("consent", "pvtrace/cli/main.py:simulate"), ("live view", "pvtrace/cli/main.py:monitor_queue"), ("show", "pvtrace/cli/main.py:show")],
 ["files and exit status of the commands", "calls of the renderer"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
import re
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    n = len(re.findall(r"[.!?](\s|$)", p["statement"]))
    if n > 3: print("sentences", p["id"], n)
print(len(P))
