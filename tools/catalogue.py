#!/usr/bin/env python3
"""Single source of properties.jsonl, MANIFEST.json and gv/meta.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = "gconv/geometry/groups/"
K = "gconv/gnn/kernels/"
M = "gconv/gnn/modules/"
GROUPS = [G + "so2.py", G + "so3.py", G + "o2.py", G + "o3.py"]
KERNELS = [K + "kernel.py", K + "kernel_sen/kernel_se2.py", K + "kernel_sen/kernel_se3.py", K + "kernel_en/kernel_e2.py", K + "kernel_en/kernel_e3.py"]
LAYERS = [M + "gconv.py", M + "gconv_sen/gconv_se2.py", M + "gconv_sen/gconv_se3.py", M + "gconv_en/gconv_e2.py", M + "gconv_en/gconv_e3.py"]

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, rule, assumptions, required, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, rule=rule, assumptions=assumptions, required=required, note=note))


EXAMPLE = "The test suite runs {} and compares {}; nothing in it ranges over {}."

prop("C01", "Group operations of SO(2), SO(3), O(2) and O(3) satisfy the group laws",
     "For every choice of group elements, in every supported representation and batch layout, the product is associative, has the identity as unit, is undone by the inverse and stays in the group, and the product of two elements is the element whose matrix is the product of their matrices. "
     "Applying one grid of elements to another yields every pairwise product, row i of the first with row j of the second, as if each had been multiplied alone. "
     "The determinant of an element is the sign of its coset and is multiplicative.",
     ["inputs", "programs"], "All group elements (generic, identity, near-identity, half turns, 120 degree, axis aligned), float32 and float64, all batch shapes, words of products up to length 40.",
     "The group tests sample a single product/inverse per group; associativity, mixed cosets, half turns, quaternion signs and broadcasting are never exercised.",
     GROUPS, [("products, inverses, determinants", "left_apply_*, *_inverse, det in the four group modules")],
     ["return values of the group functions"], "runtime monitoring of the group functions against an independent float64 matrix model (algebraic-law oracle over random words)",
     "Random tuples of group elements per group/representation/dtype/batch shape; a case is non-trivial when its descriptor (group, dtype, shapes, element kinds) is distinct.",
     ["O(2) elements multiply as (coefficient, angle) pairs, the convention pinned by the repository's own tests"],
     {"associativity": 200, "inverse": 200, "pairwise-vs-elementwise": 500, "det-multiplicative": 60, "word-undone": 20, "broadcast-shape": 200}, "sampled elements only; float tolerance 1e-10 (fp64) / 1e-4 (fp32)")

prop("C02", "Group elements act on R^2 and R^3 linearly, homomorphically and isometrically",
     "For every element and every set of points, the action is the linear map given by the element's matrix, acting with g and then h equals acting with the product hg, the identity fixes every point and the inverse undoes the action. "
     "The action preserves all distances, and its orientation (determinant) is the determinant the group reports for the element. "
     "Batched actions equal the element-wise ones for every batch shape.",
     ["inputs"], "All elements of SO(2), SO(3), O(2), O(3), all point sets and grid shapes, both dtypes.",
     "No test compares two successive actions with one action of the product, or checks orientation of reflections.",
     GROUPS, [("actions on points", "left_apply_to_R2/left_apply_to_R3, angle_to_matrix, angle_to_euclid")],
     ["return values of the actions"], "runtime monitoring of the actions against a float64 matrix model (homomorphism / isometry / orientation oracle)",
     "Random elements (incl. degenerate) acting on random point sets and voxel grids of random shape.",
     ["Known finding o2-coefficient-acts-as-rotation: O(2) coefficient -1 acts as a rotation by pi more"],
     {"action-homomorphism": 200, "action-determinant": 200, "batched-action": 50, "isometry": 200}, "one listed known finding for O(2) orientation")

prop("C03", "Matrix, quaternion, Euler and logarithm forms describe the same rotation",
     "Converting any rotation between matrices, unit quaternions and ZYZ Euler angles, along any path and in any batch shape, yields the same rotation, including half turns, the identity and gimbal lock. "
     "Euler angles come out in their documented range, rows of a batch are converted independently of each other, and q and -q give the same result. "
     "The logarithm of a rotation is its principal rotation vector (angle times axis) for every angle up to and including pi.",
     ["inputs"], "All rotations, with emphasis on the singular sets of each parameterisation (trace -1, beta = 0 or pi, angle 0 and pi), all batch shapes, float32/float64.",
     "Conversions are not covered by the stable tests at all; the singular sets have measure zero, random test inputs never hit them.",
     [G + "so3.py"], [("conversions", "euler_to_matrix, matrix_to_quat, matrix_to_euler, quat_to_matrix, quat_to_euler, euler_to_quat"), ("logarithms", "so3_log, quaternion_log"), ("axis rotations", "matrix_x, matrix_y, matrix_z")],
     ["return values of the conversions"], "runtime monitoring of conversion paths against an independent float64 model (round-trip and reference oracle, singular-set workload)",
     "Rotations of every singular and generic kind, per batch shape and dtype; distinct by (kind, shape, dtype).",
     ["euler_to_matrix clips matrix entries below its documented eps to 0"],
     {"matrix->quat->matrix": 200, "matrix->euler->matrix": 200, "log-is-principal": 100, "gimbal-lock-seen": 100}, "sampled rotations; near-singular tolerances follow documented eps")

prop("C04", "Geodesic distances are invariant metrics",
     "On rotations (any representation), planar angles and the sphere, the distance is the geodesic angle: symmetric, zero on equal elements, obeys the triangle inequality, and is unchanged when both arguments are multiplied by the same element, inverted, sign-flipped (quaternions) or shifted by a full turn. "
     "Distances broadcast pairwise over batches. "
     "The nearest-neighbour distance of a grid gives, for each element, the distance to the closest other element.",
     ["inputs"], "All pairs and triples of elements and points, grids of any size and order, broadcast shapes.",
     "No stable test calls a distance function; invariance and the metric axioms quantify over all pairs and triples.",
     [G + "so2.py", G + "so3.py", G + "s2.py"], [("distances", "geodesic_distance, geodesic_distance_s2, nearest_neighbour_distance")],
     ["return values of distance functions"], "runtime monitoring of distance calls with metric-axiom, invariance and reference-angle oracles",
     "Random pairs/triples (equal, antipodal, near, generic) per space and dtype.",
     ["distances are clamped by the documented eps near 0 and the cut locus; comparisons there use the clamped tolerance"],
     {"triangle": 200, "geodesic-angle": 200, "left-invariant": 60, "nearest-neighbour": 100, "broadcast-shape": 200}, "sampled inputs; tolerance at the clamp ~ sqrt(2 eps)")

prop("C05", "Named finite subgroups are exactly the groups they are named after",
     "The Klein, tetrahedral, octahedral, icosahedral and cyclic grids (any order, any axis) consist of distinct rotations of the right number, are closed under product and inverse, and have the element orders of the abstract group. "
     "Cyclic groups rotate about the named axis, uniform planar grids are the cyclic groups and their two-coset versions list the rotation block before the reflection block, equispaced. "
     "Unknown axis names are rejected.",
     ["configurations", "inputs"], "Every named group, every order 1..60 and axis name, every coset size combination.",
     "No test multiplies the tables out; closure and element orders quantify over all pairs of a group.",
     [G + "so3.py", G + "so2.py", G + "o2.py"], [("tables", "klein_group, tetrahedral, octahedral, icosahedral, cyclic, cyclic_x/y/z, uniform_grid")],
     ["returned grids"], "runtime monitoring of the returned grids with a group-table oracle (closure, Latin square, element-order census)",
     "Each named group, and random orders/axes of cyclic groups; the full multiplication table is checked for every grid.",
     [], {"closure": 10000, "element-orders": 50, "latin-square": 100, "rotation-about-the-axis": 50}, "complete multiplication tables of every generated group")

prop("C06", "Random group elements are valid, independent and Haar distributed",
     "Every randomly drawn element (rotation in any representation, angle, reflection group element, sphere point) is a valid element of the requested shape and dtype range. "
     "Draws are uniform with respect to the invariant measure, independent across the batch, fresh on every call and reproduced by the random seed; two-coset groups draw both cosets equally often.",
     ["inputs", "histories"], "All seeds, shapes (int, tuple, empty-free multi-dimensional), groups and representations.",
     "A unit test sees one draw; a distribution cannot be asserted from it.",
     GROUPS + [G + "s2.py"], [("sampling", "random_quat, random_matrix, random_euler, random_grid, random_s2")],
     ["returned samples"], "statistical runtime monitoring (Kolmogorov-Smirnov and moment oracles at false-alarm probability < 1e-13) plus validity monitors",
     "Random shapes/seeds for validity; samples of 40k+ elements for the distribution tests.",
     ["statistical thresholds: KS statistic 4/sqrt(n), moments 7+ sigma"], {"angle-law": 10000, "uniform-column": 10000, "archimedes": 10000, "fair-coset": 10000, "seed-reproduces": 50, "joint-draws": 50000}, "a bias below about 2% of the range is not resolved")

prop("C07", "Uniform grids are valid and well spread; repulsion spreads points",
     "For every size and representation, a uniform grid on SO(3), O(3), SO(2), O(2) or the sphere has exactly the requested number of elements, rotations before reflections, all valid, carrying no gradient history, and no two elements closer than a fixed fraction of the ideal packing distance; both representations of a precomputed grid are the same rotations. "
     "Generation works in every gradient mode, inference mode included, and repulsion wherever gradients are enabled or not. "
     "Repulsion keeps shape, updates the caller's tensor only when asked to, does nothing in zero steps and lowers the energy otherwise. "
     "Unknown parameterisation names are rejected.",
     ["configurations", "inputs"], "All grid sizes (precomputed and generated), representations, coset splits, step counts, in-place and not.",
     "Tests build one or two grid sizes; nothing measures spread or compares representations.",
     [G + "so3.py", G + "o3.py", G + "s2.py", G + "_grid_cache.py", "gconv/geometry/repulsion.py"], [("grids", "uniform_grid, uniform_grid_s2"), ("repulsion", "repulse, columb_energy")],
     ["returned grids", "the tensor passed to repulse"], "runtime monitoring of grid construction with validity, packing and energy oracles",
     "All 24 precomputed sizes x 2 representations each run; random sizes for generated grids.",
     ["packing floor: 0.6 x (cached) / 0.5 x (generated) of the volume bound"], {"well-spread": 100, "same-grid-in-both-parameterisations": 24, "energy-decreases": 10, "rotations-first": 50}, "spread floors leave a margin below measured values")

prop("C08", "The grid cache never leaks state between its users",
     "Whatever history of reading, overwriting the returned grids in place, generating with or without caching and explicit saving has happened, a cached read returns exactly the grid that was last saved under that size and representation, and an uncached generation leaves the cache unchanged. "
     "Returned grids share no memory and no gradient history with the cache, the tensors that were saved, or each other, both representations stay consistent, and asking for an unknown size or type fails.",
     ["histories"], "All interleavings of reads, in-place edits, cached/uncached generation and saves, over sizes and representations.",
     "The defect needs at least two operations in a particular order; tests only read.",
     [G + "_grid_cache.py", G + "so3.py", G + "o3.py"], [("cache", "the process-wide grid cache behind uniform_grid")],
     ["returned grids over a history"], "trace monitor: random operation histories against a shadow-dictionary model of the cache",
     "Random histories of 20-60 operations each; every read is compared with the shadow model.",
     [], {"read-your-cache": 500, "history-steps": 1000, "saved-is-what-is-read": 100, "no-aliasing": 50}, "in-process cache only (the library persists nothing to disk)")

prop("C09", "Signals on the group are interpolated exactly, linearly and invariantly",
     "Sampling a signal on a group grid returns the given value at every grid element, is linear in the signal, treats channels and query elements independently, does not depend on the order of grid rows, and is unchanged when grid and queries are multiplied by the same element; radial-basis mode is the Gaussian of the documented width and nearest mode picks the closest element, however close the next one is, for grids and signals of any size and magnitude. "
     "In two-coset groups a query only sees the signal on its own coset and results come back in query order. "
     "Barycentric sphere interpolation is exact at grid points and a convex combination of the three nearest values elsewhere.",
     ["inputs", "configurations"], "All signals, grids with distinct elements, query sets (mixed cosets in any order, near/at nodes), widths, modes, representations, both dtypes.",
     "The tests check shapes of sampled kernels, never values of the interpolant.",
     ["gconv/geometry/interpolation.py"] + GROUPS, [("sampling", "grid_sample in each group; interpolation module")],
     ["return values of the sampling functions"], "runtime monitoring of sampling calls against a float64 reference interpolation operator plus metamorphic laws",
     "Random well-conditioned grids, signals and query sets; ambiguous nearest ties are excluded.",
     ["widths are drawn so that the interpolation matrix is well conditioned", "barycentric queries lie inside grid triangles"],
     {"interpolates-exactly": 200, "reference-operator": 200, "cosets-do-not-mix": 200, "left-invariant": 100, "barycentric-reference": 50, "nearest-of-two": 80}, "sampled; tolerance scales with the condition number")

_eq = "Array axis conventions: 2D feature maps are indexed (x, y), 3D ones (z, y, x), as the coordinate grids define"
prop("C10", "Lifting convolutions are equivariant",
     "Transforming the input image by any rotation, reflection or translation that maps the voxel grid to itself (translations by multiples of the stride), and the output group grid along with it, transforms the response in the same way, for every group, kernel, stride, dilation, padding mode, mask, sampling mode and choice of output group elements. "
     "With a group grid that is closed under the transformation, the response is transformed spatially and its group axis permuted.",
     ["inputs", "configurations"], "All inputs, weights, admissible layer configurations, output grids, and all 4 (2D) / 24 (3D) rotations with both signs.",
     "The single equivariance test covers one group, one configuration, one rotation and a loose tolerance.",
     LAYERS + KERNELS + ["gconv/gnn/functional/grid.py", "gconv/gnn/functional/mask.py"], [("kernel sampling", "lifting kernels' forward"), ("convolution", "lifting layers' forward")],
     ["layer outputs for x and g.x"], "metamorphic runtime monitoring: paired executions on x and g.x, compared in float64",
     "Random configurations x random symmetry (identity excluded unless drawn) x random output grids; non-trivial when the response is not constant.",
     [_eq], {f"equivariance:lift{f}": 20 for f in ("SE2", "E2", "SE3", "E3")} | {"translation-equivariance": 50, "responses": 1000}, "exact voxel symmetries only; rotations off the voxel grid are covered through kernels in C13")

prop("C11", "Separable, full and subgroup group convolutions are equivariant",
     "Transforming the input feature map by any rotation, reflection or translation that maps the voxel grid to itself, together with the input and output group grids, transforms the response in the same way, for every group, layer type and configuration. "
     "The group part of every kernel depends only on the relative element between output and input, so it is unchanged when both grids are multiplied by the same arbitrary element.",
     ["inputs", "configurations"], "All feature maps, weights, configurations, grids; all voxel symmetries spatially and all group elements for the group part.",
     "No stable test runs a group-to-group layer on a transformed input.",
     LAYERS + KERNELS, [("kernel sampling", "separable, full and subgroup kernels"), ("convolution", "separable and full layers")],
     ["layer and kernel outputs"], "metamorphic runtime monitoring: paired executions on (x,H) and g.(x,H), compared in float64",
     "As C10 for group-to-group layers; plus paired kernel evaluations under arbitrary group elements.",
     [_eq], {f"equivariance:{k}{f}": 15 for k in ("sep", "conv") for f in ("SE2", "E2", "SE3", "E3")} | {f"left-invariance:{f}": 10 for f in ("SE2", "E2", "SE3", "E3", "SO3")} | {"translation-equivariance": 40}, "exact voxel symmetries only for the spatial part")

prop("C12", "Responses do not depend on array order, batching or memory layout",
     "Permuting input group elements together with the feature map's group axis leaves the response unchanged; permuting, selecting or repeating output group elements does the same to the response. "
     "Items of a batch, memory layouts and equivalent representations of the same rotation do not influence the values, splitting an input element's features over two copies of the element changes nothing, and with channel groups an output channel sees exactly its own group's input channels.",
     ["inputs", "configurations"], "All permutations, selections, duplicates and batch compositions, all groups, layers and configurations.",
     "Tests use one fixed order and batch; order dependence is invisible to them.",
     LAYERS + KERNELS + ["gconv/geometry/interpolation.py"], [("kernel assembly and reshapes", "kernel forward and layer forward")],
     ["layer outputs"], "metamorphic runtime monitoring: paired executions related by relabelling, splitting and batching",
     "Random layer configurations with a random relation; the identity permutation is avoided.",
     [], {"input-order": 60, "output-order": 60, "input-additivity": 60, "batch-independence": 60, "other-group-untouched": 40, "memory-layout": 60}, "sampled relations")

prop("C13", "Sampled kernels are the continuous kernel evaluated on the transformed grid",
     "For every layer type, the kernel used between input element h and output element h' equals the stored weights interpolated on the group at h'^-1 h and in space at h'^-1 p, zero outside the unit ball when masked. "
     "Masks and coordinate grids are the centred ball and the centred grid of every kernel size, symmetric under the voxel symmetries. "
     "Omitted group grids default to the uniform grid of the requested size, given ones are used as they are and determine the number of parameters.",
     ["inputs", "configurations"], "All weights, grids, kernel sizes, sampling modes and paddings, widths, group sizes, masks.",
     "Kernel tests assert shapes on one configuration.",
     KERNELS + ["gconv/gnn/functional/grid.py", "gconv/gnn/functional/mask.py"], [("kernel sampling", "kernel forward: group interpolation, spatial sampling, mask")],
     ["kernel outputs", "grid and mask buffers"], "runtime monitoring of kernel evaluations against an independent float64 reference model",
     "Random kernel configurations, parameters and grids; ambiguous rounding ties excluded.",
     ["kernel_size=2 with mask is all zeros by the mask's definition and is excluded"],
     {f"kernel-full:conv{f}": 12 for f in ("SE2", "E2", "SE3", "E3")} | {f"kernel-spatial:lift{f}": 12 for f in ("SE2", "E2", "SE3", "E3")} | {f"kernel-group:sep{f}": 12 for f in ("SE2", "E2", "SE3", "E3")} | {"kernel-subgroup": 30, "ball-mask": 20, "default-grid": 30} | {f"precise-full:conv{n}": 4 for n in (2, 3)} | {f"precise-group:sep{n}": 4 for n in (2, 3)}, "reference model of group interpolation and spatial sampling written from the documentation")

prop("C14", "A layer's response is the ordinary convolution with its sampled kernel",
     "For every layer type, the response equals the convolution of the input with the sampled kernel, summed over input channels of the same channel group and over input group elements, with stride, padding (number, valid, same), padding mode, dilation and groups meaning exactly what they mean in an ordinary convolution, each applied once, plus one bias per output channel. "
     "It is linear in the input up to the bias, and omitted output grids fall back to the documented default.",
     ["inputs", "configurations"], "All inputs, parameters, and combinations of stride, padding, padding mode, dilation, groups, bias, group sizes and kernel sizes.",
     "Layer tests assert output shapes for one configuration per layer.",
     LAYERS, [("convolution", "lifting, separable and full forward; padding setup")],
     ["layer outputs and returned grids"], "runtime monitoring of layer calls against an explicit float64 convolution model",
     "Random configurations over the whole option space; distinct by configuration and sizes.",
     ["float64 layers; tolerance scales with weights"], {f"convolution:{k}{f}": 10 for k in ("lift", "sep", "conv") for f in ("SE2", "E2", "SE3", "E3")} | {f"layer-model:{k}{f}": 6 for k in ("lift", "sep", "conv") for f in ("SE2", "E2", "SE3", "E3")} | {"superposition": 50}, "end-to-end from parameters to output")

prop("C15", "With randomised output grids, the returned grid is the grid that was used",
     "When output grid randomisation is on, the returned grid is one random group element times the requested (or default) grid, fresh on each call and drawn over the whole group, and the response is exactly the response one gets by asking for the returned grid without randomisation. "
     "The training flag and gradient mode make no difference. The layer's own grid and the caller's grid are never modified; with randomisation off the requested grid is returned unchanged and calls are deterministic.",
     ["inputs", "configurations", "histories"], "All layers, groups, dtypes, requested or default output grids, seeds and repeated calls.",
     "Tests discard the returned grid or fix randomisation off.",
     LAYERS, [("randomisation", "permute_output_grid in each layer's forward")],
     ["returned (response, grid) pairs"], "runtime monitoring of (response, grid) pairs with a replay oracle and Haar statistics",
     "Random layers and requests, each call replayed on its returned grid; 9600 returned elements tested for uniformity.",
     [], {"response-on-returned-grid": 100, "one-random-element": 100, "haar-angle": 8, "reference-grid-unmodified": 100, "requested-grid": 50}, "statistical part has false-alarm probability < 1e-12")

prop("C16", "Pooling, normalisation, activation and wrapper modules act as documented",
     "Spatial pooling (fixed and adaptive) pools each channel and group element separately over space, group pooling reduces exactly the group axis, global pooling reduces group and space together. "
     "Batch and instance normalisation use one set of statistics per channel shared over group and space, layer normalisation, activations and wrapped modules act pointwise as their ordinary counterparts, and every module that returns a grid passes it through untouched. "
     "Permuting the group axis of the input permutes (or leaves) the result accordingly, and gradients flow back to the input as through the ordinary counterparts.",
     ["inputs", "configurations"], "All shapes, ties and negative values, window sizes, strides, training and evaluation mode, running statistics over several steps.",
     "No test exercises these modules.",
     [M + "pooling.py", M + "normalization.py", M + "activations.py", M + "wrappers.py"], [("modules", "forward of the pooling, normalisation, activation and wrapper modules")],
     ["module outputs, running statistics"], "runtime monitoring of module calls against explicit window/statistics models",
     "Random feature maps, module options and modes; outputs compared with explicit enumeration.",
     [], {"spatial-max-pool-2d": 10, "spatial-max-pool-3d": 10, "spatial-avg-pool-2d": 10, "spatial-avg-pool-3d": 10, "adaptive-avg-pool-3d": 5, "adaptive-max-pool-2d": 5, "group-max-pool": 10, "group-avg-pool": 10, "global-max-pool": 10, "global-avg-pool": 10, "batch-norm-2d": 20, "batch-norm-3d": 20, "instance-norm-2d": 20, "instance-norm-3d": 20, "layer-norm": 20, "running-var": 40}, "sampled shapes")

prop("C17", "Whole networks give invariant descriptors and equivariant feature maps",
     "A network of lifting, group convolution, normalisation, activation and group pooling layers produces a feature map that moves with the input, and, after global pooling, a descriptor that is unchanged by every rotation or reflection of the input that maps the voxel grid to itself. "
     "This holds when intermediate group grids move along, and with fixed grids that are closed under the transformation, including the default grids of planar networks.",
     ["inputs", "programs", "configurations"], "All compositions of layers, depths, groups, parameters, training/evaluation mode and inputs.",
     "Tests never compose layers; composition defects (axis order, grid hand-over) do not appear in single-layer shape tests.",
     LAYERS + KERNELS + [M + "pooling.py", M + "normalization.py"], [("composition", "grids returned by one layer feed the next")],
     ["network outputs on x and g.x"], "metamorphic runtime monitoring of random networks on transformed inputs",
     "Random architectures (2-4 layers), groups and symmetries; compared in float64.",
     [_eq], {"invariant-descriptor": 80, "equivariant-map": 80, "invariant-descriptor-fixed-grid": 40, "default-network-invariant": 60}, "exact voxel symmetries only")

prop("C18", "Layers are pure functions of parameters and inputs: no history, no interference",
     "A layer's, module's or group function's response depends only on its parameters and inputs: not on what other layers, grids or random draws did before, on train/eval, gradient or inference mode, default dtype or thread, on how often it ran, or on concurrent forward and backward passes in other threads. "
     "Calls modify neither arguments, parameters, buffers nor earlier results, layers of the same class share no state, keep none of their arguments and results alive, and construction and re-initialisation are reproducible from the seed, in every gradient mode. Calls that are not documented as random leave the random state, and all calls leave torch's process-wide settings, as they were.",
     ["histories", "schedules", "configurations"], "All histories of operations on any number of layers, thread interleavings of concurrent passes, gradient modes.",
     "Hidden state shows only after particular sequences of calls; tests call each layer once.",
     LAYERS + KERNELS + [G + "_grid_cache.py"], [("purity", "no module-level or default-argument state; buffers read only")],
     ["responses across histories and threads"], "trace monitoring: shadow responses over random operation histories and multi-threaded stress runs",
     "Random histories of 10+ unrelated operations; 2-6 threads running forward/backward concurrently.",
     [], {"history-independent": 200, "unrelated-operations": 200, "concurrent-passes": 200, "state-unmodified": 500, "options-do-not-leak": 100, "reproducible-construction": 100, "current-values-count": 150, "released": 80, "same-everywhere": 500, "mode:inference": 40, "mode:concurrent": 40, "settings-kept": 1000, "random-state-kept": 500}, "CPython threads with torch releasing the GIL inside kernels; schedules are sampled")

prop("C19", "No uninitialised memory, non-finite value or stray write at singular inputs",
     "For finite inputs at every singular configuration (identity, half turns, coinciding elements, gimbal lock, single-element and duplicate grids, tiny and large magnitudes) forward and backward passes give finite responses and gradients, read no uninitialised memory, and write to no tensor the caller or the layer owns. "
     "Construction initialises every parameter and buffer, buffers receive no gradients, and every parameter does.",
     ["inputs", "configurations"], "All layer configurations and group functions at singular and hostile inputs, forward and backward.",
     "Singular inputs have measure zero in test data, and uninitialised memory is usually zero by luck.",
     LAYERS + KERNELS + GROUPS + ["gconv/geometry/interpolation.py"], [("numerical guards", "eps clamps, masks, new_empty fills")],
     ["every tensor operation dispatched during a call"], "operation-level sanitizer: dispatch-mode hook on every tensor operation plus NaN-filled allocations",
     "Random layer configurations at hostile group elements/magnitudes, and each group function at singular elements; each dispatched operation is inspected.",
     ["gradients with respect to group elements at coinciding elements are outside the property"], {"sanitized-operations": 20000, "finite-gradient": 200, "finite-response": 100, "initialised": 100, "sanitizer:unmodified": 500, "singular-pairs": 50000}, "operator-level, not instruction-level; torch's own native kernels are trusted")

prop("C20", "Checkpoints, copies and dtype changes reproduce the layer",
     "Saving a layer or model and loading the checkpoint into a freshly built one of the same configuration gives the same response and the same group grids, and training resumed from a checkpoint continues as if uninterrupted. "
     "Deep copies and pickles respond identically and are independent of the original; every parameter is registered with the enclosing model; converting to another precision changes the response only by rounding and keeps outputs in that precision. Under autocast a layer responds up to the lower precision's rounding with float32 parameters and gradients, and with a float64 default dtype all grid factories and layers are float64.",
     ["histories", "configurations", "crash_points"], "All layers and configurations, all cut points of short training runs, all copy mechanisms.",
     "No test saves, copies or converts a layer.",
     LAYERS + KERNELS, [("registration", "parameters and buffers registered in kernels and layers")],
     ["responses before and after save/restore"], "runtime monitoring: save / restore / resume at random cut points with a response-equality oracle",
     "Random layers, serialised through bytes; training cut at a random step.",
     ["default interpolation widths are constructor-derived and not part of the checkpoint: configurations are equal on both sides"], {"checkpoint-response": 80, "resumed-training": 80, "copy-is-independent": 50, "float32-agrees": 40, "grid-restored-response": 30, "autocast-gradient-dtype": 50, "default-dtype-response": 50}, "crash points are save/restore boundaries of training steps")

prop("C21", "Gradients are the derivatives of the response",
     "For every layer, pooling, normalisation and activation module, and for whole networks, back-propagated gradients with respect to inputs and every parameter equal the derivatives of the forward computation, also when some parameters are frozen, gradients are accumulated over micro-batches, activations are recomputed, or gradients are differentiated again. "
     "So do gradients with respect to group elements and grids, through layers with continuous interpolation and through the group and interpolation functions, away from singular elements. "
     "Every weight (of the group elements, channels and voxels that are in use), and every bias influences the response and receives a gradient.",
     ["inputs", "configurations"], "All configurations, parameters, inputs and directions.",
     "No test calls backward.",
     LAYERS + KERNELS + [M + "pooling.py", M + "normalization.py"], [("differentiability", "no detach/in-place in the forward path")],
     ["forward values and gradients"], "runtime monitoring: adjoint (dot-product) tests and finite differences over random directions",
     "Random configurations and directions; multilinear layers are tested by exact adjoint identity.",
     [], {f"adjoint:{k}{f}": 10 for k in ("lift", "sep", "conv") for f in ("SE2", "E2", "SE3", "E3")} | {"no-dead-weights": 50, "network-derivative": 20, "every-parameter-trains": 20, "adjoint:subgroup": 100, "frozen-gradient": 40, "accumulated-gradient": 20, "gradient-penalty": 20, "function:so3.grid_sample": 20, "function:so3.left_apply_quat": 20} | {f"elements:{k}{f}": 8 for k in ("lift", "sep", "conv") for f in ("SE2", "E2", "SE3", "E3")}, "sampled directions")

prop("C22", "The generic layers and kernels work for any group plugged into them",
     "Given any group through its product, inverse, action, determinant and sampling functions (finite groups with genuine reflections, scalings, affine maps; results of any memory layout), the generic kernels compute the stored weights at the relative element and the inversely transformed position divided by the absolute determinant, masked if asked. "
     "The generic layers convolve with whatever kernel they are given, and are exactly equivariant for finite groups acting on the voxel grid; a subgroup kernel gives the pointwise group convolution.",
     ["inputs", "programs", "configurations"], "All plug-in groups, kernel types, 2D and 3D, grids and weights.",
     "Tests only use the four built-in groups, for which the determinant is +-1 and many argument orders coincide.",
     [K + "kernel.py", M + "gconv.py"], [("generic kernels", "kernel base classes' forward"), ("generic layers", "2D/3D lifting, separable and full layers")],
     ["kernel and layer outputs, calls made to the plug-in functions"], "runtime monitoring of instrumented plug-in groups against the convolution formula",
     "Random plug-in groups (D4, Oh, scalings, affine), kernel types and layers.",
     [], {"kernel-formula:conv:affine": 5, "kernel-formula:lift:scale": 5, "kernel-formula:sub:finite": 5, "kernel-formula:sep:affine": 8, "layer:sub:finite": 3, "equivariance-custom:lift3d": 10, "equivariance-custom:conv2d": 10, "subgroup-layer": 20}, "user groups of five families")

prop("C23", "Invalid configurations and inputs are rejected, every documented one works",
     "Every combination of documented options builds a layer whose output has the documented shape and grid, and leaving an option out means its documented default. "
     "Channel counts not divisible by the number of groups, a non-positive number of groups, unknown padding strings or padding modes, 'same' padding with a stride in any dimension, and negative or empty group sizes are refused when the layer is built; unknown sampling modes and conv modes are refused rather than replaced. "
     "An input with the wrong number of channels or group elements, or too small for the kernel, is refused, and the layer still works afterwards.",
     ["configurations", "inputs", "fault_sequences"], "The whole option space of the layers, with at most one documented constraint violated.",
     "Tests contain no rejected configuration and one accepted one per layer.",
     LAYERS + KERNELS + [G + "so2.py", G + "so3.py"], [("validation", "constructor checks of the base layer; mode dispatch of the sampling functions")],
     ["exceptions and output shapes"], "fault-injection runtime monitoring: legal configurations with one planted fault, accept/reject oracle",
     "Random legal configurations; for the rejections exactly one fault is injected into a configuration first seen to be legal.",
     [], {"documented-output-shape": 100, "rejected-at-construction": 100, "unknown-mode-rejected": 40, "foreign-input-rejected": 50, "too-small-rejected": 25}, "the exception type is asserted only where documented as ValueError")

prop("C24", "Spherical and Euclidean coordinates name the same points and lift to rotations",
     "Converting a point of the sphere between Euclidean and spherical coordinates, in any batch shape and at the poles and the seam too, returns the same point with the angles in their range. "
     "Lifting spherical coordinates to Euler angles keeps them and prepends alpha = 0 or minus the azimuth, giving a rotation that takes the north pole to the point; sphere grids in all representations are the same points. "
     "Sphere distances are the angle between points, symmetric, rotation invariant and pairwise under broadcasting.",
     ["inputs", "configurations"], "All points (generic, poles, near poles, equator, seam), all angles including several turns, both dtypes, all grid parameterisations.",
     "No test imports the sphere module.",
     [G + "s2.py", G + "so3.py"], [("conversions", "spherical_to_euclid, euclid_to_spherical, spherical_to_euler, spherical_to_euler_neg_gamma"), ("grids", "uniform_grid_s2, random_s2")],
     ["return values"], "runtime monitoring of conversions against a float64 model at and around the singular set",
     "Random points of six kinds, dtypes and batch shapes.",
     ["euler_to_matrix clips entries below its documented eps of 1e-6"], {"round-trip": 100, "pole-to-point": 100, "same-points": 50, "angle": 100, "sin-cos-formula": 60, "broadcast-shape": 100}, "sampled points")


prop("C25", "Computations stay on the device of their inputs",
     "Grids, group elements and masks asked for on a device, by argument or as the default device, are created there, also when they come from the cache, and have the values they have on the CPU. "
     "Functions, layers and networks whose parameters and inputs are on a device compute there without mixing in tensors of another one, and their responses, returned grids, kernels and gradients are on that device and equal to those on the CPU. "
     "Parameters and buffers of a layer move with it, and a layer moved to a device and back works as before.",
     ["inputs", "configurations"], "All functions with a device argument, all functions of tensors, all layer configurations, modules and training runs on a device other than the CPU.",
     "All tests run on the CPU, where a missing device argument has no effect.",
     [G + "so2.py", G + "so3.py", G + "o2.py", G + "o3.py", G + "s2.py", G + "_grid_cache.py", "gconv/geometry/repulsion.py", "gconv/gnn/functional/grid.py", "gconv/gnn/functional/mask.py", "gconv/gnn/modules/gconv.py", "gconv/gnn/kernels/kernel.py"],
     [("device arguments", "uniform_grid, random_grid, random_quat, cyclic, create_grid_R2, create_spherical_mask_R2"), ("layers", "forward of all layers, random output grids drawn on input.device, buffers of GroupKernel")],
     ["device and values of every result and gradient", "operands of every dispatched tensor operation"],
     "runtime monitoring of every dispatched operation on a virtual second device that refuses operands of different devices, with the CPU run as oracle",
     "Every factory and function in turn with random arguments, random layer configurations, networks and training runs; each is run on the CPU and on the virtual device from one seed.",
     ["the virtual device enforces the rules common to accelerators (no mixing except copies, CPU scalars and CPU indices); it does not model asynchrony or device kernels"],
     {"created-there": 60, "function": 100, "layer:response": 60, "layer:returned-grid": 60, "built-there-response": 20, "module": 30, "cached-there": 10}, "sampled inputs and configurations; a virtual device instead of an accelerator")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p["observe"], hook_needed=None),
            )) + "\n")
    with open(os.path.join(ROOT, "gv", "meta.json"), "w") as f:
        json.dump({p["id"]: dict(rule=p["rule"], assumptions=p["assumptions"], required=p["required"]) for p in P}, f, indent=1)
        f.write("\n")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(dict(
            version=1, setup_cmd="true",
            checks=[dict(property=p["id"], quick_cmd=f"./run.py {p['id']}", thorough_cmd=f"./run.py {p['id']} --tier thorough",
                         technique=p["technique"], level="exploration",
                         level_note="Held on the executions observed: " + p["note"] + ".") for p in P],
            not_applicable=[],
            notes="No hooks in /repo: all monitors sit at the library's call boundary or in torch's dispatch mode.",
        ), f, indent=1)
        f.write("\n")


main()
