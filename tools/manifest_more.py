MC, EX, FE = "model_checking", "exploration", "fault_enumeration"
MORE = {
 "C10": ("TLA+ Tally state machine recomputes every recorder from recorded histories event by event (TLC) and judges the engine's and the reference's tallies", MC,
         "Random worlds, recorders, facets and histograms; values within 6 fixed-point units of a bin edge may fall either side; facet within 2e-8 of atol is not judged."),
 "C11": ("TLA+ Sched model of the parallel loop checked exhaustively; Runs spec (TLC) judges digests and tallies of real runs over worker counts, record_every, prefixes, offsets and bundles", MC,
         "Model exhaustive for N<=6, W<=3; the OS schedules the real threads, so interleavings are sampled; float sums compared to 2e-8 relative."),
 "C20": ("TLA+ Gate model enumerated by TLC (all combinations of supported parts with at most one or two unsupported features), each scene built, compiled and simulated for real", MC,
         "All unsupported features listed in the property; supported/unsupported combinations sampled in quick."),
 "C12": ("TLA+ Share model of splitting throws over workers and lights checked exhaustively; Throws spec (TLC) judges real simulations (list, queue, seeded, engine)", MC,
         "Model for N<=9..24, W<=5..9, L<=3..5; real pools over chosen sizes."),
 "C13": ("TLA+ Sim model (workers, bounded queue, monitor, transactions, shutdown) model-checked; SimGen enumerates task assignments and queue interleavings that are replayed through the real worker function and monitor; Store spec judges the database; real command runs", MC,
         "Replayed interleavings: up to 3 tasks, 3 processes, 2-4 events per throw (sampled per assignment). Real pool and command runs are scheduled by the OS."),
 "C14": ("TLA+ Sim model with crashes model-checked; the real monitor is ended at every file-changing system call (before it, and after half of a write) and Store judges the reopened database; the real command is killed", FE,
         "Every crash point of a 14-event run at system-call granularity (process death, not power loss); armed after the schema has been created."),
 "C15": ("TLA+ Query spec recomputes every counts/spectrum answer from the rows of a database by the meaning of the options and judges the real command's output; QueryDef algebra (composition, monotonicity, partition) model-checked over every database of a small scope", MC,
         "Random databases and option vectors (TLC-chosen cases exhaustive over 1-3 event databases); real commands through click's runner."),
 "C16": ("TLA+ Query spec judges the time commands, output formats and plots against the rows of the database", MC,
         "Values compared as the decimal strings of 15 significant digits; plots checked for completion and file, not for pixels."),
 "C17": ("TLA+ ParseGen enumerates abstract scene documents and single structural mutations (TLC); Parse spec computes the expected scene from the document and judges what the real loader built, observed by probing coefficients, poses, draws and recorders", MC,
         "About 7 800 choice vectors; stochastic parts judged by moments and ranges at 6 sigma or more; top-level unknown keys not judged."),
 "C18": ("TLA+ SceneGraph enumerated by TLC (all behaviours to depth 2, simulated to depth 7) over the exact rotation group and integer translations, replayed through real nodes; GraphTrace judges recorded histories at general angles", MC,
         "Axis of rotate read in the parent's frame; roll of look_at left free; general angles to 1e-6."),
 "C19": ("TLA+ Solid: exact integer oracle for ray/solid crossings, side and normals (MCSolid checks its own lemmas exhaustively on a lattice); Shapes judges real shapes at many sizes and scenes of posed nodes", MC,
         "Box, sphere, cylinder and nested scenes; tangent and edge rays excluded from crossing counts; meshes are judged by C29."),
 "C21": ("TLA+ Studio generator (TLC) writes out histories of valid and invalid edits, replacements, saves and reloads; each is replayed through the real HTTP endpoints and StudioTrace (TLC) judges document, served scene and compiled scene before and after every request", MC,
         "Documents of up to four nodes; histories sampled from the generator, each request judged exactly."),
 "C22": ("TLA+ StudioDoc gives the meaning of every edit operation on the abstract document; Frame property model-checked; StudioTrace (TLC) judges what every real edit did to the whole document", MC,
         "Documents of up to four nodes without YAML aliases; operations and arguments from finite sets."),
 "C23": ("TLA+ StudioRun model of a connection (run, stop, edit, close against the streaming task) checked exhaustively; its schedules are replayed through the real websocket endpoint with the kernel gated, and RunTrace (TLC) judges every message", MC,
         "Schedules of up to two or three runs and a few bundles; the kernel call is the only gated step, asyncio's own order is the real one."),
 "C24": ("TLA+ Upload enumerates names from separators, dots and endings and decides acceptance and the file written; every request runs in the real server as an unprivileged user in a scratch folder and the changed files are judged by TLC", MC,
         "Names of up to four pieces, odd bodies, unresolvable and hostile documents; containment by an unprivileged user."),
 "C25": ("TLA+ Lsc model of a ray in the device and its bookkeeping checked exhaustively; its simulated histories are fed to the real device's bookkeeping in place of the tracer, and LscTrace (TLC) judges spectrum, counts, summary, surfaces, lights and layers of real devices against their recorded histories", MC,
         "All histories to 4-5 events for 20 surface configurations; real devices sampled over sizes, indices, surfaces, components and lights; configured before the first simulate, lights outside the device; rates at 6 sigma."),
 "C26": ("TLA+ Dist enumerates small tables and DistDef gives their exact quantiles (monotone and inverse: checked by TLC), each table given to the real class; Sampler judges light masks, phase functions and the engine's emission against declared extents and densities, with Stats for the frequencies", MC,
         "All tables of 2-4 points over small value sets; other tables, masks and angles sampled; frequencies at 5.5 sigma; a probability of exactly zero at a histogram's end is not judged."),
 "C27": ("TLA+ Renderer model of the bounded store checked exhaustively; its behaviours are replayed into the real renderer behind a stand-in viewer window, and RenderTrace (TLC) judges every object drawn (segments, colours, markers, poses) and every object left", MC,
         "Histories of up to five events over all drawing options; the viewer is replaced by a stand-in that records its scene tree; a bauble at the very end of an excluded history is left open."),
 "C28": ("TLA+ Forms enumerates the ways to describe a component (TLC) and the spectrum each means; every description is given to the real classes and FormsTrace (TLC) judges acceptance, coefficients, emission, yield and lifetime", MC,
         "All forms times value choices over small grids; negative constants not judged; histogram spectra judged at grid points."),
 "C29": ("TLA+ Cells: exact solids made of (slanted) cells with their crossings, nesting and outward faces, model-checked for every small solid; MeshTrace (TLC) judges meshes built from such solids, scenes of them and rays traced through them", MC,
         "Every solid of the small scope in the model; larger ones sampled; features larger than a few thousandths of a unit; lines near edges and vertices not judged."),
 "C30": ("TLA+ Asked model of a ray among surfaces which answer as they like, checked exhaustively and replayed with scripted answers through the real tracer; AskTrace (TLC) judges every question asked of custom surfaces, phase functions and lights in random worlds", MC,
         "Behaviours to a fixed number of questions; spheres for the replay, random posed worlds for the recorded part; the Python tracer and Light.emit (the engine refuses custom callables: C20)."),
 "C31": ("TLA+ Optics: exact reflectances on Pythagorean angles with Fresnel's identities as invariants, every pair given to the real formulas; OpticsTrace (TLC) judges reflectivities, directions, conversions, emissions, line shapes and colours computed by the real code", MC,
         "Fixed point to 1e-8 or 1e-6; directions sampled; colours at every quarter nanometre in the thorough run."),
 "C32": ("TLA+ Files model of scene, database, commands and answers, model-checked for every command in every state and simulated for sequences; its behaviours are carried out with the real commands and FilesTrace (TLC) judges files, success and what the viewer was given", MC,
         "Runs of 2 to 5 rays; the viewer is a stand-in; sequences of five steps sampled."),
}
