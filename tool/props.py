BASE_ASSUME = ["the default build configuration (the one /opt/vp/build.sh configures) is the one analysed",
               "third-party libraries (standard library, cereal, glm, fmt, nlohmann/json, pybind11) behave as documented"]
NOTE = "Exhaustive over every translation unit, class and call site of the build configuration; decides the structural clause stated in the rule, trusting clang's front end, the extractor and the rule code."
PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, technique=None, rule=None, assume=(), note=NOTE, na=None):
    d = dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech)
    if na:
        d["na"] = na
    else:
        d.update(technique=technique, rule=rule, assume=BASE_ASSUME + list(assume), note=note)
    PROPS.append(d)


P("S01", "Saving and reloading a component preserves everything its behaviour uses",
  "For every component that can live in the asset tree, every piece of state its later behaviour reads is written when it is saved and read back when it is loaded (or recomputed while loading), including owned children and references to other assets. Loading reads back the same items, in the same order and of the same kinds, as saving wrote, on every path.",
  ["inputs", "histories", "configurations"], "every component class, every member, every path through its save and load code",
  "Tests round-trip a handful of components with one configuration each; a member missed in one of some fifty classes only shows for configurations where its value differs from what is left in memory.",
  ["include/lm/serial.h", "include/lm/serialtype.h", "include/lm/component.h", "src/scene.cpp", "src/accel/accel_sahbvh.cpp", "src/film/film_bitmap.cpp", "src/model/model_wavefrontobj.cpp", "src/material", "src/renderer", "src/volume", "src/medium", "src/light", "src/camera", "src/texture", "src/mesh"],
  ["LM_SERIALIZE_IMPL in every component", "save/load helpers for pointers, vectors and owned components in serial.h"],
  "custom whole-program dataflow over clang AST: member read-set vs archived-set, save/load trace agreement",
  "For every registered component class, each data member that any method other than construction reads must be archived on every path of both save and load (or assigned while loading); the sequence of archived items of save and load must agree.",
  ["cereal archives what it is handed"])

P("S02", "Every reference a component holds is reported when references are visited",
  "For every component, visiting its underlying components reports every owned child and every weak reference to another component that it stores, including each element of every list, each with the correct owned/weak flag, and a weak reference changed by the visitor is written back. So replacing or reloading an asset leaves no component pointing at the old one.",
  ["inputs", "histories", "configurations"], "every component class, every reference member (also inside containers and nested records), every path of the enumeration",
  "Tests replace one or two kinds of asset; a missed reference shows only as a dangling pointer after a specific asset is replaced.",
  ["include/lm/component.h", "src/assetgroup.cpp", "src/scene.cpp", "src/material", "src/renderer", "src/light", "src/medium", "src/volume"],
  ["foreach_underlying of every component", "comp::visit helpers"],
  "custom must-analysis over clang AST: reference members vs visited access paths",
  "For every registered component class and the root context, each access path of type Component pointer / owning pointer reachable by value from its members must be passed to the visitor on every path of foreach_underlying (absent values and unpopulated variant branches excepted; list elements only through loops over the whole list), with weak=false for owned and weak=true for pointers; comp::visit must store the visited pointer back.")

P("S03", "A child component is found again under the locator it was created with",
  "Whenever a component creates or reloads an owned child under its own locator plus a name, looking that name up on the component yields exactly that child, on every path. Names computed at run time are entered into the lookup table that resolves them.",
  ["inputs", "histories", "configurations"], "every child-creation site of every component class, every path of the lookup",
  "Tests look up a few fixed locators; a mismatch between the creation name and the lookup name breaks only references to that child after save/load or replacement.",
  ["include/lm/component.h", "src/assetgroup.cpp", "src/model/model_wavefrontobj.cpp", "src/renderer", "src/user.cpp"],
  ["make_loc(name) at creation and underlying(name) at lookup"],
  "custom path-sensitive AST analysis: creation locator name vs lookup result",
  "For every comp::create/load_comp call whose locator is make_loc(NAME) and whose result is stored in member M, underlying(NAME) evaluated over all its paths returns M and never null or another member; computed names must be inserted into the map underlying() consults.")

P("S06", "Code running on several threads never writes shared state unsynchronised",
  "While rendering, building acceleration structures or otherwise running a parallel loop, no worker writes memory that another worker may access except through a lock, an atomic, thread-local storage, or an element reserved for its own loop index. Scene, material, light, camera, texture, mesh, medium, volume and phase queries used by workers therefore leave no trace in shared state.",
  ["schedules", "inputs", "programs"], "every parallel loop body and thread body, everything reachable from it through the class hierarchy, every interleaving",
  "A race shows only under particular interleavings; tests run small images and check results loosely.",
  ["src/parallel/parallel_openmp.cpp", "include/lm/parallel.h", "src/scheduler.cpp", "src/renderer", "src/accel/accel_sahbvh.cpp", "src/material", "src/scene.cpp", "src/film/film_bitmap.cpp"],
  ["const query interfaces", "per-thread state, atomics, per-index partitioning"],
  "interprocedural write-effect (escape/alias) analysis over the class-hierarchy call graph",
  "From every OpenMP region, every lambda handed to a parallel loop and every std::thread body, compute the write effects of everything reachable; each effect must be on function-local or thread-local memory, an atomic, under a lock, or an element indexed by the loop index; the progress callback runs only on thread 0.",
  ["Python-implemented components are outside the analysed program (their calls are serialised by the interpreter lock)"])

P("S07", "No concurrent contribution to the film is lost",
  "Any number of threads may add to, update or set pixels of a film at the same time, and the final pixel value reflects every contribution: each update is one atomic read-modify-write computed from the value it replaces. Workers use only these thread-safe film operations.",
  ["schedules", "inputs"], "every interleaving of film operations, every pixel",
  "A lost update needs two threads inside one pixel's read-modify-write; tests with small images practically never hit it and would not notice one missing sample.",
  ["src/film/film_bitmap.cpp", "include/lm/film.h", "src/renderer"],
  ["compare-exchange loops on per-pixel atomics"],
  "atomic read-modify-write protocol analysis (value-dependence of compare-exchange operands)",
  "Every film entry point used by workers (set/splat/update/increment/accumulate) must change pixels only through an atomic RMW or a retried compare-exchange whose new value depends on the compared value and on the contribution; film calls inside parallel loops are limited to those entry points.")

P("S08", "An error raised inside a parallel loop reaches the caller of the loop",
  "If any worker of a parallel loop throws, the exception is caught on that worker, kept safely when several workers throw at once, and rethrown to the caller once the loop has ended, on every path. No exception escapes a parallel region and none is swallowed.",
  ["schedules", "fault_sequences", "inputs"], "every iteration, every throwing statement and callback inside a parallel region, any number of simultaneous failures",
  "Tests throw from one callback in one loop; they do not cover every statement in the region nor simultaneous failures.",
  ["src/parallel/parallel_openmp.cpp", "include/lm/parallel.h"],
  ["catch-all in the loop body, captured exception under a mutex, rethrow after the loop"],
  "exception-flow analysis over clang AST (catch coverage, guarded capture, rethrow on all exits)",
  "In every OpenMP parallel region each call that may throw lies inside a try block with a catch-all that stores the current exception under a lock; after the region every normal exit of the function passes a test of the stored exception that rethrows it.")

P("S09", "Lock-protected state is touched only under its lock; waits cannot hang",
  "State shared by threads and protected by a mutex (logger state and console output, work queues of background builders) is accessed only while that mutex is held or is atomic. A waiting thread re-checks its condition under the lock, every change of that condition wakes every waiter it concerns, and started threads are joined before their shared data goes away.",
  ["schedules", "histories"], "every access on every path, every interleaving of producers, waiters and termination",
  "Missed wake-ups and unlocked accesses depend on scheduling; tests pass with either.",
  ["src/logger.cpp", "src/accel/accel_sahbvh.cpp"],
  ["std::unique_lock on the object's mutex", "condition variable with predicate, notify_all on completion, join"],
  "lockset analysis plus condition-variable typestate over clang AST",
  "Members written outside construction in classes owning a mutex, their function-local statics and console output, and locals captured by thread bodies must be accessed under the mutex or be atomic; condition waits use a predicate (or loop), each change of a variable in the predicate is followed by a notification (notify_all for termination flags), threads are joined on all exits.")

P("S05", "Construction sets every piece of state that later behaviour reads",
  "For every component and every configuration its construction accepts, each member that later behaviour reads has been given a value by the time construction finishes: no behaviour depends on uninitialised memory. A configuration option with an enumerated set of values either selects one of them or is rejected with an error.",
  ["inputs", "configurations"], "every component class, every member, every path of construction that ends normally",
  "An uninitialised member usually holds a harmless value in tests; only particular option combinations leave it unset.",
  ["src/camera", "src/renderer", "src/film", "src/material", "src/light", "src/medium", "src/volume", "src/texture", "src/mesh", "src/model", "src/accel", "src/scene.cpp"],
  ["construct(const Json&) of every component", "default member initialisers"],
  "definite-assignment dataflow over clang AST (must-initialise by construct, interprocedural)",
  "For every registered component class, each trivially-initialised member read by any method other than construction has a default initialiser or is assigned on every path of construct() that completes normally (paths that throw or report an error excepted).")

P("S10", "Operations that may come back empty are checked before their result is used",
  "Whenever an operation reports failure by an empty result (an unknown component type, a missing asset, an option not given, no intersection, no sample, a file that cannot be opened, a quantity a volume or texture does not have), the code handles that case or reports an error before using the result. No configuration, scene or file turns such a failure into a null dereference or a read of an absent value.",
  ["inputs", "configurations", "fault_sequences"], "every use of every possibly empty result on every path, including members that construction may leave empty",
  "Tests use well-formed scenes and files; each failing lookup or absent sample needs its own input.",
  ["include/lm/component.h", "include/lm/path.h", "src/user.cpp", "src/assetgroup.cpp", "src/scene.cpp", "src/renderer", "src/scheduler.cpp", "src/material", "src/medium", "src/model", "src/camera", "src/film"],
  ["null / has_value / end() tests before use", "LM_THROW_EXCEPTION on missing components"],
  "path-sensitive nullness / presence dataflow over clang AST with interprocedural summaries",
  "Values returned by functions that can return null, an empty optional, end() or a null FILE, and members that a normally completing construct() may leave empty, are dereferenced only on paths where a dominating test (or a presence query such as has_scalar()) excludes emptiness.",
  ["a component reference stored after a successful construct() stays valid (S02 covers replacement)",
   "index-to-pointer accessors (primitive/node/light index of the scene) are given indices they handed out"])

P("S04", "Loading, replacing or failing to load an asset keeps the tree consistent",
  "While an asset is being constructed or deserialized it is already reachable under its name. If that fails, the asset group is as it was before: the previous asset of that name (or none) is in place, no half-made asset stays registered, and references to the previous asset still work. After a successful replacement every reference to the replaced asset, anywhere in the tree, refers to the new one, and the replaced asset is destroyed only after that.",
  ["inputs", "histories", "fault_sequences"], "every load operation of every asset group, every point at which component code may throw",
  "Tests replace one asset successfully; a failing construction in the middle of a replacement needs its own scene and error.",
  ["src/assetgroup.cpp", "include/lm/assetgroup.h", "include/lm/component.h"],
  ["register before construct, roll back on exception", "weak-reference update over the whole tree after replacement"],
  "exception-aware typestate/effect analysis over clang AST (register, construct, roll back, relink)",
  "In every load operation of every AssetGroup implementation: component code (construct, deserialization) runs only after registration; if it throws, every path out of the operation undoes the insertion or puts the replaced element back; a replaced element is kept alive until the references were updated; on every normal exit after a replacement the whole tree is visited from the root with a visitor that recurses into owned children and looks every weak reference up again.",
  ["the visited reference set is complete (S02)", "standard containers' own allocation failures are not considered"])

P("S11", "A component saved by itself is self-contained and loads under any name",
  "Saving one component of the asset tree to a file stores its type, its children and every reference it holds, with references inside the saved part stored relative to it, so it can be loaded under another name or into another place and its inner references then resolve within the loaded copy. A reference to a component outside the saved part is rejected with an error when saving, never silently stored as something else.",
  ["inputs", "histories", "configurations"], "every reference held by the saved component, every name of root and target (including names that extend one another)",
  "Tests save one component under one name; name prefixes, renamed roots and outside references are not covered.",
  ["include/lm/serial.h", "src/component.cpp", "src/serial.cpp", "src/assetgroup.cpp", "include/lm/component.h"],
  ["archives carrying the root locator", "references stored as locators relative to the root and rebased on load"],
  "string-provenance and guard analysis of locators over clang AST",
  "In the reference-saving code, each locator written for a weak reference is derived by removing the archive's root, is guarded by a test that the referenced locator equals the root or continues it with a separator (otherwise an error is thrown), and resolves back to the component; each locator read is combined with the loading archive's root before it is resolved; every save/load of a subtree passes the root to the archive.")

P("S12", "A failure to read or write a file is reported to the caller",
  "Whenever opening, reading, parsing, writing or closing a file fails (saved state, component files, images, meshes, material libraries, plugins), the operation reports it: it throws or returns its failure result, on every path. No such failure ends in apparent success, no status is ignored, data still buffered when a file is closed counts as not yet written, and a read error is not taken for the end of the file.",
  ["fault_sequences", "inputs"], "every file operation, every point at which it can fail",
  "Tests write small files to a working disk; a full disk, an unreadable file or a failing callback never happens there.",
  ["src/user.cpp", "src/pylm.cpp", "src/film/film_bitmap.cpp", "src/objloader/objloader_simple.cpp", "src/objloader.cpp", "src/component.cpp", "src/assetgroup.cpp", "src/mesh/mesh_wavefrontobj.cpp", "src/model/model_wavefrontobj.cpp"],
  ["boolean results of Film::save and objloader::load", "exceptions with Error::IOError"],
  "path-sensitive typestate analysis of status results and file streams over clang AST (abstract interpretation)",
  "Functions whose false result means failure are derived from the library calls they contain; every such result and every stdio/stb status is looked at; on paths on which one is known to have failed the function throws or returns failure; a file stream written to is flushed and tested before a normal exit, a stream read line by line is tested before and after the loop (archives throw by themselves); no handler swallows an exception.",
  ["cereal archives throw on short reads and writes", "results of stb_image_write are truthful (its PNG and HDR writers do not check the final flush)"])

P("S13", "Python and C++ see the same operations of every component",
  "For every component interface exposed to Python, calling an operation on a component implemented in Python runs the Python method of the same name with the same arguments in order and returns its result, every operation of the interface whose types can cross the boundary can be overridden, and calling an operation from Python runs the C++ operation of that name. Components owned by the framework are handed to Python without transferring ownership, and a component implemented in Python stays alive exactly as long as the framework uses it.",
  ["programs", "inputs"], "every virtual operation of every bound interface, every bound function",
  "Tests implement a few operations in Python; a misrouted operation shows only when a Python component overriding just that operation is used.",
  ["src/pylm.cpp", "include/lm/pylm.h", "include/lm/component.h"],
  ["pybind11 trampolines and class bindings"],
  "cross-reference analysis over the type-checked AST of the binding layer (trampolines, .def names, return policies)",
  "Each trampoline override looks up the Python method with the operation's own name on its own interface, passes every parameter once in declaration order and falls back to that same operation; every virtual of a bound interface whose parameter and result types have Python conversions has a trampoline override; a .def name equals the name of the bound member function; bound functions returning borrowed component pointers use a reference policy; override results are not narrowed; a bound lambda forwards every argument, in order, to the operation it is named after; the creation callback of a Python component stores the owner reference and the release callback drops exactly one reference and disarms itself.",
  ["pybind11's override lookup and conversions behave as documented"])

P("S14", "Parallel work runs without Python's interpreter lock; Python calls hold it",
  "Every operation callable from Python that runs work on several threads releases the interpreter lock for its duration, so workers calling back into Python cannot deadlock; every callback or overridden operation that touches Python objects from C++ takes the lock first, and no other lock is held while waiting for it.",
  ["schedules", "programs"], "every bound function that can reach a parallel loop, every callback into Python, every interleaving",
  "A missing release or acquire only hangs or crashes when a worker thread calls back into Python at the wrong time.",
  ["src/pylm.cpp", "include/lm/pylm.h", "src/parallel", "src/renderer"],
  ["call_guard<gil_scoped_release> on bindings", "gil_scoped_acquire in trampolines and callbacks"],
  "call-graph reachability plus lock-guard dominance over clang AST of the binding layer",
  "Every function bound to Python from which a parallel region or thread start is reachable in the class-hierarchy call graph carries a gil_scoped_release; every trampoline and every callback lambda stored on the C++ side that uses Python objects has a gil_scoped_acquire dominating those uses; no call that can reach a Python override is made inside the scope of a mutex lock.")

P("S17", "Renderers account for each random decision exactly once",
  "In the path tracer, the light tracer and both volumetric path tracers, each contribution added to the film is the evaluated transported quantity times the weight of every sampling decision on the way to it, each exactly once, divided by the probability of having survived Russian roulette; nothing else scales it. Explicit connections are evaluated at the sampled vertex along the sampled direction and pass a visibility or transmittance test; light found by two strategies is weighted with complementary balance-heuristic weights built from the densities of both strategies, otherwise it is counted by exactly one; it lands at the raster position of the direction in which it leaves the camera, and the walk carries vertex, direction and component of the same interaction. The bidirectional renderers weight each connected path for the strategy that made it, share it among the strategies exactly when several can make it, and multiply throughputs and evaluations of the same vertices.",
  ["inputs", "configurations", "histories"], "every iteration of every walk, every sampling mode, every outcome of the random decisions",
  "The error of a missing weight or doubly counted light is a bias that depends on scene, path length and mode; image tests are absent or loose.",
  ["src/renderer/renderer_pt.cpp", "src/renderer/renderer_lt.cpp", "src/renderer/renderer_volpt.cpp", "src/renderer/renderer_bdpt.cpp", "src/renderer/renderer_bdptopt.cpp", "include/lm/path.h", "include/lm/math.h"],
  ["render() of renderer::pt, lt, volpt, volpt_naive, bdpt, bdptopt and the *_path renderers", "math::balance_heuristic"],
  "disjunctive value-numbering dataflow analysis over clang AST with loop-head states; contributions reduced to canonical products and matched with sampling decisions",
  "The function handed to the scheduler is analysed over all its paths, loop state numbered symbolically at the loop head (helpers and lambdas expanded, lm::path and Scene calls numbered). Each film splat must be a product of the throughput, the weights of exactly the samples it depends on since, one evaluation and optionally one balance-heuristic ratio of the two strategies' densities at the same vertex and direction; each pass round the loop multiplies the throughput by the weights of what it sampled over the survival probability; the state carried over belongs to one interaction; over all combinations of mode and vertex facts a light is counted by one strategy in full or by two with complementary weights.",
  ["lm::path samplers and densities satisfy S18", "arithmetic is over the reals", "direction- and position-type degenerate lights cannot be hit"])

P("S18", "A sample's weight equals its contribution divided by its density",
  "For every material, phase function, light, camera and the generalised samplers of lm::path, in every outcome of a sampling routine the returned weight is the contribution of exactly what was sampled (as the evaluation function reports it) divided by the density the matching density function reports for it; outcomes of position and component selection carry the reciprocal of that density. When a routine chooses among alternatives at random, the density function reports the probability with which the alternative is chosen, mixed over the alternatives that can produce the same result; light selection reports the probability it selected with. The density of points sampled on a surface that is then transformed follows the change of area.",
  ["inputs", "configurations", "histories"], "every sampler of every implementation, every outcome of its decisions, every parameter value",
  "Tests check a few weights numerically at loose tolerances; a missing selection probability, a wrong alternative's density or a dropped factor only shows as a small bias in images of particular scenes.",
  ["include/lm/path.h", "include/lm/math.h", "include/lm/surface.h", "src/scene.cpp", "src/material", "src/light", "src/camera", "src/phase", "src/model/model_wavefrontobj.cpp"],
  ["sample_*/pdf_*/eval triples of Material, Light, Camera, Phase and lm::path", "Dist and Dist2"],
  "disjunctive value-numbering dataflow analysis over clang AST: sampler, density and evaluation reduced to canonical products and compared per outcome",
  "Each sampler, its density function and its evaluation function are reduced to canonical values (helpers and lambdas expanded, summing loops turned into sums, everything else numbered by how it is computed). In every outcome weight * density must be the same value as the contribution (1 for position and component selection); samplers of other objects are assumed to satisfy the rule. Comparisons with a random number and draws from Dist give the outcome's probability, which must equal the component density; a sampler delegating to candidates must have the mixture of their densities; the density carries the normalisation constant of the warp functions that made the sample; Dist::pmf and Dist2::pdf match their tables and samplers; lm::path hands no random number to two decisions.",
  ["random inputs are independent uniforms in [0,1)", "selection probabilities lie in [0,1]", "light_index_at inverts light_primitive_index_at", "arithmetic is over the reals (rounding is not modelled)"])

P("S19", "Media absorb and scatter with the density they were given",
  "Distances are sampled in a medium with the same density, bound and range that its transmittance is evaluated with: a medium of constant density draws -log(1-u)/density from where the ray enters it and its transmittance is exp(-density*length inside it); a medium of varying density steps with the maximum of its density volume, accepts a point with the probability density/maximum and multiplies 1 - density/maximum. The interaction lies at the distance drawn and is weighted with the albedo at that point; light that crosses without interaction has weight 1. No volume returns a density above the maximum it reports. A volume made of others has the density of those whose bound contains the point, a bound around all of them, and their colour weighted with the density. Along a path, distances and transmittance are limited by the surface hit or the point connected to; nothing passes between points that do not see each other, and scenes without a medium are vacuum.",
  ["inputs", "configurations"], "every medium and volume, every ray, range and random number",
  "Tests contain no medium; a biased distance or transmittance only shows in the statistics of rendered images.",
  ["src/medium", "src/volume", "include/lm/path.h"],
  ["Medium::sample_distance(), eval_transmittance()", "Volume::max_scalar(), eval_scalar()", "path::sample_distance(), path::eval_transmittance()"],
  "value-numbering dataflow analysis over clang AST of media, volumes and their uses; outcomes and loop-carried values compared, case by case, with the free-flight and null-collision formulas as functions of the random numbers, the range and the density",
  "For each medium the outcomes of both functions are extracted as conditions and values over the ray, the range of the ray in the bound, the random numbers (numbered by where they are drawn) and the density; logarithm, exponential and density are free functions of their arguments. Without a loop: transmittance exp(-D*(far-near)) fixes D; at each of a set of rational points exactly one outcome applies, an interaction at o+d*(near+t) with t=-log(1-u)/D iff t < far-near, with the albedo as weight, else weight 1. With a loop: it starts at near, each step adds -log(1-u)/max, ends iff the step reaches far, accepts with a random number of its own iff density/max at o+d*t exceeds it, and the transmittance is the product of 1-density/max; density, maximum and bound are of one volume and the two functions use the same. Values of volumes are the maximum, zero, a constant not above it or the maximum times an exponential of a non-positive form; a volume made of others sums densities and maxima over the same list. In path.h each outcome's ray, limits, point, weight and kind are compared with the cases hit / not hit / environment / blocked / no medium.",
  ["floating point is treated as real arithmetic; equality of formulas is decided by exact evaluation at points in general position", "densities are not negative and maxima of volumes used as density are positive", "the overlap of a ray with a bound is decided by S22"])

P("S20", "Every pixel gets its samples and the image is scaled by the number taken",
  "Every renderer checks the scene and clears the film before taking samples, and afterwards scales the accumulated film exactly once by the reciprocal of the samples per pixel actually taken (pixel-based schedulers), or by pixels over samples (image-based schedulers). Schedulers hand every pixel index to the renderer equally often, report exactly the number of samples taken, and the parallel loop hands out every index of its range once. Pixel i is column i mod width, row i div width; its samples stay inside it, and image-wide samples cover the whole image.",
  ["inputs", "configurations", "schedules"], "every renderer, scheduler and mode, every film size and number of samples",
  "Tests render square or tiny images with one scheduler; a wrong divisor, a skipped index or a transposed mapping shows only for particular sizes, modes or times.",
  ["src/renderer", "src/scheduler.cpp", "src/parallel", "include/lm/scheduler.h", "include/lm/parallel.h"],
  ["Renderer::render()", "Scheduler::run()", "ParallelContext::foreach()"],
  "disjunctive value-numbering dataflow analysis over clang AST of render(), construct(), run() and foreach(); counts, scale factors and pixel coordinates compared as canonical values",
  "render() is analysed over all paths: a require_* call and clear() come before the one scheduler run, one rescale() after it, whose factor must equal 1/processed or w*h/processed according to the scheduler that construct() creates under the same mode. The image position given to the camera sampler must be ((i mod w)+u)/w, ((i div w)+u')/h with different random numbers, or two plain random numbers for image-based schedulers; set pixels are written once in every outcome. In run() every index of the parallel range calls the process function once with pixel and sample number that enumerate pixels x samples, and what is returned equals what was taken (per pass, for the timed schedulers). In foreach() the index starts at 0, steps by one to the bound and is handed on once per iteration unless the loop was cancelled.",
  ["OpenMP runs each iteration of a worksharing loop once", "integer overflow of the sample count is not considered"])

P("S21", "Pixels, texels and faces are stored and read under their own index",
  "A value written to film pixel (x, y) is stored, accumulated, handed out and saved at (x, y): the three pixel operations store, add or transform exactly that element; clearing, rescaling, accumulating and copying go through every pixel once; images are saved with the film's width and height and with the rows in the order of the file format. A texture lookup reads all components of the one pixel its (repeated) coordinates fall into, for images with any number of components. A mesh's enumeration, triangle_at(), surface_point() and num_triangles() describe the same triangles, and missing vertex attributes are never read.",
  ["inputs", "configurations"], "every film and image size, pixel, texture coordinate, face and barycentric coordinate",
  "Tests use square or tiny images, colour textures and complete meshes; swapped extents, an off-by-one row or a wrong corner shows only for particular sizes or data.",
  ["src/film", "include/lm/film.h", "src/texture", "src/mesh", "src/model", "include/lm/math.h"],
  ["Film_Bitmap", "Film::raster_to_pixel(), splat(), inc_ave()", "Texture_Bitmap", "Mesh_Raw, Mesh_WavefrontObj, Mesh_WavefrontObjRef"],
  "value-numbering dataflow analysis over clang AST of the accessors; element indices compared as canonical polynomials in the loop variables, loop ranges and extents",
  "Every store to an element of the pixel container is collected with its index and value as canonical polynomials. Pixel operations must address y*w+x of the size reported by size() and store v, old+v or f(old). Whole-film loops must enumerate 0..w*h-1 exactly once: the index is decomposed into a mixed-radix form over the ranges of the enclosing loops (either direction), which must multiply up to the number of elements; nothing but the loop tests may guard the store. The copies used for saving must map pixel j, component i to 3*j+i, with the row reversed under the flip flag; the calls of the image writers must pass w, h, 3 and the row order of the format. Raster positions map to clamp(int(rp*size), 0, size-1). A texture component k must be element c*(w*y+x)+k with x, y the given ones or those of the repeated coordinates, and c >= 3 known unless the one grey value is used. Mesh corner j of a face must be entry 3*face+j of the index list for each attribute from its own array, enumeration must hand out triangle_at(i) for every i below num_triangles(), surface_point() must be the (1-u-v, u, v) mix of the same corners, using an optional attribute only where all three corners are known to have it; flat option lists are read in consecutive groups under the option of the same name.",
  ["indices given by the caller lie inside the film, image or mesh", "integer overflow of w*h is not considered"])

P("S22", "Rays hit the geometry that was put into the scene, where it was put",
  "Nodes are stored under the index they are created with, primitives refer to the assets given for them, and every node below the root is visited exactly with the product of the transforms above it. The acceleration structure holds every triangle of every mesh, transformed by that product, in some leaf whose ancestors' bounds contain it, also after a rebuild and for a scene without triangles. A ray query returns the closest intersection in [tmin, tmax]: the point of the face of the primitive that was hit, with position, normals and texture coordinates of that point under its transform, and the environment light only for rays that leave the scene. Every light is known to the scene with its transform and the bound of the scene.",
  ["inputs", "histories"], "every scene graph (nesting, instances, rebuilds), triangle and ray",
  "Tests trace a few rays in one or two scenes without nested transforms; a lost triangle, a wrong order of transforms or a stale closest hit needs a particular graph, split or ray.",
  ["src/scene.cpp", "src/accel/accel_sahbvh.cpp", "include/lm/math.h", "include/lm/surface.h"],
  ["Scene_", "Accel_SAHBVH: build(), intersect()", "Tri, Bound, Transform", "PointGeometry::make_on_surface(), math::orthonormal_basis()"],
  "value-numbering dataflow analysis over clang AST of the scene graph, the hierarchy and the geometric predicates; loop-carried values compared symbolically, closed formulas compared as rational functions",
  "Scene: every node added to the node list has as its index the length of the list, which is what create_*() returns; each field of a primitive depends on the option of its name only, and the camera, environment light and medium of the scene are set exactly on the paths where the node has one; nodes copied from a model are moved, with their children, by the length of the list. The recursion over the graph starts at the root with the identity, passes each node on unconditionally and goes on to all children with G or G*L, by whether the group has a transform L. build() clears and refills the lights with the transform and index of the node and bounds all three transformed corners. intersect() takes the point of face and uv of the hit from the mesh of the hit primitive, with M for positions and normal_M for normals. Acceleration structure: the triangles recorded are those of every mesh, with the transform, face and primitive; a leaf holds the range of its entry, the two children the ranges [s,m) and [m,e) for one m strictly inside, and a node's bound merges every triangle of its range; the loop over a leaf tests s..e-1 against [tmin, closest so far], and the values returned, with the loop-carried variables replaced by those after a hit, are all those of the triangle just hit; nodes are skipped only by their bound and both children are pushed to places of their own. Formulas: the triangle test's t, u, v and each of its conditions equal, as rational functions of the corners and the ray, the solution of o+td = p1+u(p2-p1)+v(p3-p1) (decided by exact rational evaluation at points in general position); slabs, merged bounds, the transform of normals, the tangent frame likewise.",
  ["floating point is treated as real arithmetic; rays parallel to a triangle or a slab are outside the identities", "meshes enumerate their triangles as S21 requires", "the sorting done while splitting permutes the indices (std::sort)"])

P("S24", "Values crossing between Python and C++ arrive intact or are rejected",
  "Numbers, strings, booleans, lists, dictionaries and arrays converted between Python and the framework keep their kind and value: integers keep 64 bits, booleans stay booleans, strings are not taken for lists, matrices keep their row/column meaning. Arrays of the wrong type, shape, size or memory layout are rejected or copied, never read beyond their end.",
  ["inputs"], "every JSON kind, every vector and matrix caster, every numpy array handed in",
  "Tests pass small well-formed values; truncation and over-reads need large integers, sliced arrays or wrong shapes.",
  ["include/lm/pylm.h", "src/pylm.cpp"],
  ["pybind11 type casters for Json, Vec and Mat"],
  "type- and order-sensitive analysis of the conversion code over clang AST (kind tests, widths, bounds-before-copy)",
  "In the casters: integer conversions use 64-bit types; the kind tests are ordered so that a subtype is tested before its supertype (bool before int, string before sequence); each raw copy from an array is dominated by checks of its dimension and extent and by a contiguous-layout request; matrices are transposed in both directions; outgoing arrays own their copy and their shape and strides describe it; image buffers declare element type, rows-first shape and dense strides; an element whose own conversion failed makes the whole conversion fail; downcasts are guarded by a kind test; every JSON kind has a branch or is rejected.")

P("S25", "Camera rays, raster positions and densities follow the camera's options",
  "The ray through the middle of the image starts at the camera's position and goes toward its centre; the upper edge lies on the side of the up vector, the vertical extent is the field of view asked for and the horizontal one that times the aspect ratio, also after the aspect ratio is set anew; raster positions are spread evenly over the image. The raster position of the direction of the ray through a point is that point; directions outside the image or behind the camera have none. The density of a direction is 1/(area of the image*cos^3) inside the image and 0 outside. Samples start at the position and go along the ray of the raster position drawn, or to the point connected to; the view and projection matrices are those of the same position, orientation, field of view and aspect ratio.",
  ["inputs", "configurations"], "every camera placement, field of view, aspect ratio, raster position and direction",
  "Tests render with one camera; an image mirrored or off by part of a pixel in connections to the camera, or a wrong Jacobian, shows only as noise-level bias.",
  ["src/camera/camera_pinhole.cpp"],
  ["Camera::construct(), set_aspect_ratio()", "Camera::primary_ray(), raster_position(), pdf_direction()", "Camera::sample_*(), view_matrix(), projection_matrix()"],
  "value-numbering dataflow analysis over clang AST of the camera; the fields construct() leaves are substituted into the extracted formulas of the other functions and the compositions compared as rational functions",
  "The outcomes (conditions and values) of each function are extracted symbolically. The values construct() and set_aspect_ratio() leave in the fields, for options by position/centre/up and by matrix, are substituted into primary_ray(), raster_position(), pdf_direction(), sample_*() and the matrices; the compositions are compared with the specification by exact rational arithmetic at points in general position (rational orthonormal frames, so that lengths are rational; tan and Pi are free symbols): direction of the middle ray, edges, extents, affinity on the image plane, raster_position(primary_ray(rp).d) == rp, no raster position outside or behind, pdf_direction == 1/(A cos^3) with A measured from the extracted rays.",
  ["floating point is treated as real arithmetic; equality of formulas is decided by exact evaluation at points in general position", "up is not parallel to the viewing direction"])

# ------------------------------------------------------------------ not applicable
P("N01", "Renderers converge to the light-transport solution",
  "Averaged over samples, every renderer's image converges to the solution of the rendering equation for the configured maximum path length, and different renderers agree.",
  ["inputs", "configurations"], "all scenes and sample sequences", "Statistical; tests compare single images loosely.",
  ["src/renderer", "include/lm/path.h"], ["importance sampling with matching densities"],
  na="Quantifies over numerical results of random estimators; no sound static argument in reach bounds them. Its structural clauses (probabilities accounted for, renderer protocol) are claimed separately.")
P("N02", "The closest intersection is found regardless of acceleration structure",
  "A ray query returns the closest surface hit within the given range for every scene and every acceleration structure.",
  ["inputs"], "all rays and meshes", "Tests sample a few rays.", ["src/accel/accel_sahbvh.cpp", "src/scene.cpp"], ["bounding-volume traversal"],
  na="Geometric/numerical property of floating-point values (bounds arithmetic, slab tests); static analysis cannot bound them, and any structural proxy would freeze one implementation.")
P("N03", "Direction sampling densities integrate to one and match the samples",
  "For every material, phase function, light and camera the reported density is the true density of its sampling routine.",
  ["inputs"], "all parameters and directions", "Tests sample few configurations.", ["src/material", "src/phase", "src/light", "src/camera"], ["sample/pdf pairs"],
  na="Equality of a density with the distribution a warp produces is a statement about integrals; outside what static analysis decides. The algebraic part (weight = contribution / reported density, selection probabilities) is claimed as S18.")
P("N04", "A fixed seed reproduces the same image",
  "Two renders of the same scene with the same seed and thread count produce the same image.",
  ["schedules", "configurations"], "all schedules", "Depends on scheduling.", ["src/renderer", "include/lm/math.h"], ["per-thread seeded generators"],
  na="Not a guarantee of this code base: iterations are handed to threads dynamically and per-thread generators outlive a render, so the property does not hold by design.")
P("N05", "Rendering terminates and progress reaches completion in bounded time",
  "Every render call ends after its configured number of samples or time budget.",
  ["schedules", "inputs"], "all scenes", "Timing.", ["src/scheduler.cpp", "src/parallel/parallel_openmp.cpp"], ["counted and timed loops"],
  na="Termination and timing depend on run-time quantities (path lengths, clocks); no static bound.")
