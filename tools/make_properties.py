#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text lives here so that it can be edited comfortably)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Complex transform equals the global 3-D DFT for every data distribution",
  "For every number of processes and every way of splitting the global index grid into per-process input and output boxes (any shapes, any storage order common to all boxes of one side, grids with length-1 dimensions), a forward (backward) complex transform leaves on every process exactly its box of the mathematical 3-D DFT with exponent sign -1 (+1) of the global input, up to rounding. This holds for every CPU backend, both precisions, real input or output arrays as well as complex ones, and all plan options.",
  ["inputs", "configurations"],
  "all process counts, partitions of all grids into input/output boxes with all storage orders, all CPU backends, precisions, directions, plan options and data values",
  "The tests use a handful of grids (mostly cubes near 20^3), near-uniform brick splits made by the library's own helper, the default storage order nearly everywhere, and a few process counts.",
  ["include/heffte_fft3d.h", "src/heffte_compute_transform.cpp", "src/heffte_plan_logic.cpp", "src/heffte_reshape3d.cpp"],
  [("plan of reshapes and 1-D/2-D/3-D transforms", "src/heffte_plan_logic.cpp plan_operations"), ("execution of reshape/transform chain", "src/heffte_compute_transform.cpp compute_transform"), ("per-direction executors", "include/heffte_backend_fftw.h, heffte_backend_mkl.h, heffte_backend_stock.h")],
  observe=["output arrays of fft3d::forward and fft3d::backward on each process"])

prop("C02", "Real-to-complex transform equals the non-redundant half of the DFT",
  "For every distribution, storage order and choice of shortened dimension, the forward real-to-complex transform leaves on every process exactly its box of the 3-D DFT of the real input restricted to indexes 0..n/2 in the shortened dimension (odd and even n), and the backward transform applied to the half spectrum of any real array returns the unscaled inverse DFT of the full Hermitian spectrum. This holds for every CPU backend, both precisions and all plan options.",
  ["inputs", "configurations"],
  "all process counts, real/complex box partitions and orders, shortened dimension 0/1/2, odd/even/unit lengths, backends, precisions, options",
  "The tests use few grids and the library's own splits; empty boxes, odd lengths in combination with each direction, and non-default orders with each backend are sampled once or never.",
  ["include/heffte_fft3d_r2c.h", "src/heffte_compute_transform.cpp", "src/heffte_plan_logic.cpp"],
  [("r2c plan with shortened intermediate boxes", "src/heffte_plan_logic.cpp"), ("r2c branch of compute_transform", "src/heffte_compute_transform.cpp"), ("r2c executors", "include/heffte_backend_*.h")],
  observe=["output arrays of fft3d_r2c::forward and ::backward"])

prop("C03", "Cosine and sine transforms equal their defining sums",
  "For every distribution, storage order and grid, the real-to-real transforms leave on every process exactly its box of the multidimensional DCT-II (cosine), DST-II (sine) or DCT-I (cosine type 1) of the global input in the forward direction and of the corresponding type III (type I for cosine-1) inverse transform backward, with the library's documented normalisation, on every CPU backend and in both precisions.",
  ["inputs", "configurations"],
  "all real-to-real backends, process counts, partitions, orders, grids, directions, precisions",
  "The tests check one 3-D grid against stored numbers and a few round trips on 1, 2 and 4 processes.",
  ["include/heffte_r2r_executor.h", "include/heffte_backend_fftw.h", "include/heffte_backend_stock.h", "include/heffte_backend_mkl.h"],
  [("pre/post processing around a complex or r2c FFT", "include/heffte_r2r_executor.h"), ("native FFTW r2r plans", "include/heffte_backend_fftw.h")],
  observe=["output arrays of rtransform::forward/backward"])

prop("C04", "Scaling multiplies by exactly 1, 1/sqrt(N) or 1/N and inverts the transform",
  "With scaling none, symmetric or full, forward and backward transforms of any kind return the unscaled result multiplied by 1, 1/sqrt(N) or 1/N respectively, where N is the global number of indexes of the transform (the logical extended length for real-to-real kinds) and equals what the scale-factor query reports on every process. Consequently forward followed by backward with total scaling 1/N reproduces the input on every process up to rounding.",
  ["inputs", "configurations", "histories"],
  "all transform kinds, grids, distributions, scalings chosen independently per call, batch sizes",
  "The tests use full scaling on one direction and compare norms on fixed grids; per-call combinations, symmetric scaling with uneven or empty boxes, batches and the query are not explored.",
  ["include/heffte_fft3d.h", "include/heffte_fft3d_r2c.h", "include/heffte_common.h"],
  [("data_scaling::apply", "include/heffte_common.h and include/heffte_backend_vector.h"), ("scale factors computed at construction", "src/heffte_plan_logic.cpp, include/heffte_fft3d.h get_scale_factor")],
  observe=["outputs of forward/backward with scaling", "get_scale_factor"])

prop("C05", "Plan options change performance only, never the result",
  "For one transform problem, every combination of communication algorithm, pencil or slab decomposition, reordered or strided local transforms, and number of participating sub-ranks yields the same output box contents on every process, up to rounding. No valid combination hangs, crashes or is rejected.",
  ["configurations", "inputs"],
  "all combinations of the plan options for all problems (metamorphic: any two option sets on the same problem agree)",
  "The tests iterate options only on fixed near-cubic problems with library-made splits.",
  ["include/heffte_common.h", "src/heffte_plan_logic.cpp", "src/heffte_compute_transform.cpp", "src/heffte_reshape3d.cpp"],
  [("plan_options dispatch", "src/heffte_plan_logic.cpp"), ("make_reshape3d algorithm dispatch", "include/heffte_reshape3d.h")],
  observe=["outputs under differing plan_options"])

prop("C06", "A batch transform equals the same transforms done one at a time",
  "For every batch size, problem and plan options, one batched forward or backward call over consecutively stored arrays gives for each batch member what a single call on that member gives, for complex, real-to-complex and real-to-real transforms, with or without a user workspace.",
  ["inputs", "configurations"],
  "batch sizes >= 1 x all problems, including ones where some or all data movements are unnecessary and where input and output boxes differ in size",
  "The batch test uses one grid, one batch size and default options, always with several processes.",
  ["src/heffte_compute_transform.cpp", "src/heffte_reshape3d.cpp", "include/heffte_fft3d.h"],
  [("batch loops and offsets", "src/heffte_compute_transform.cpp"), ("batched pack/unpack and message sizes", "src/heffte_reshape3d.cpp")],
  observe=["output arrays of batched calls"])

prop("C07", "Transforms touch only the arrays they are given, within the stated sizes",
  "A transform reads and writes no memory outside the input, output and workspace arrays whose sizes are those reported by the plan times the batch size, never modifies a separate input array, and never depends on prior contents of output or workspace. In-place complex transforms give the same result as out-of-place ones, and library-allocated workspace gives the same result as user workspace.",
  ["inputs", "configurations"],
  "all problems, options, batch sizes, array types, in-place or not, user or internal workspace, arbitrary stale contents in output/workspace",
  "Tests run without bounds checking, allocate with slack from vectors, and never look at the input afterwards or poison the buffers.",
  ["include/heffte_fft3d.h", "include/heffte_fft3d_r2c.h", "src/heffte_compute_transform.cpp", "src/heffte_reshape3d.cpp"],
  [("workspace size computation", "include/heffte_fft3d.h size_workspace, src/heffte_reshape3d.cpp get_workspace_size"), ("buffer rotation", "src/heffte_compute_transform.cpp")],
  observe=["memory accesses (address sanitizer red zones), bytes of input after the call, NaN-poisoned buffers"])

prop("C08", "A reshape delivers every element to its place exactly once",
  "For any two distributions of one global grid over the same processes, with any storage orders, each data movement algorithm leaves on every process at every position of its destination box the value held by the unique process that owned that global index, for every element type and batch size, and touches nothing else.",
  ["inputs", "configurations", "schedules"],
  "all pairs of partitions (bricks, pencils, irregular, with empty boxes), orders, process counts, algorithms, element types, batch sizes, message arrival orders",
  "The reshape test uses three process counts and a few hand-made or uniform splits.",
  ["src/heffte_reshape3d.cpp", "include/heffte_reshape3d.h", "include/heffte_pack3d.h"],
  [("overlap maps and pack/unpack plans", "src/heffte_reshape3d.cpp compute_overlap_map_*"), ("four exchange algorithms", "src/heffte_reshape3d.cpp reshape3d_alltoall/alltoallv/pointtopoint")],
  observe=["destination arrays after the exchange"])

prop("C09", "Local packing and unpacking is the geometric index map",
  "Packing a sub-box of a strided local array, and unpacking it with or without axis transposition, copies every element of the sub-box to the position given by the box coordinates and storage orders, for all sub-box shapes and offsets, and leaves every other destination element unchanged.",
  ["inputs"],
  "all sub-box shapes and strides, all six target axis orders, all element types",
  "Unit tests use a few fixed boxes of size up to 6.",
  ["include/heffte_pack3d.h", "src/heffte_reshape3d.cpp"],
  [("direct_packer / transpose_packer", "include/heffte_pack3d.h"), ("pack_plan_3d construction", "src/heffte_reshape3d.cpp")],
  observe=["destination buffers of pack/unpack"])

prop("C10", "Every decomposition helper produces an exact partition of the grid",
  "Every helper that splits a global grid (by a processor grid, into pencils, into slabs) returns one box per process, pairwise disjoint, together covering the grid exactly, with extents differing by at most one per split dimension and full length in the dimensions promised to be whole; the processor-grid helpers always return a valid factorisation, with the minimal-surface one optimal among all factorisations. Box utilities (intersection, counts, bounding world, completeness and shape tests) agree with their set-theoretic meaning.",
  ["inputs"],
  "all grids (any low corner, size, order), process counts and processor grids",
  "Unit tests check about ten literal examples.",
  ["include/heffte_geometry.h"],
  [("split_world, make_pencils, make_slabs, make_procgrid2d, proc_setup_min_surface", "include/heffte_geometry.h"), ("world_complete, find_world, is_pencils, is_slab, collide", "include/heffte_geometry.h")],
  observe=["returned boxes"])

prop("C11", "Every execution plan transforms each dimension exactly once on whole lines",
  "For every pair of valid input and output distributions and every option set, the plan chains data movements so that each stage starts from the distribution left by the previous one, begins and ends at the user's distributions, every stage is a partition of the (possibly shortened) grid, each dimension is transformed exactly once, at a stage where every process holds whole lines in it (contiguous ones when reordering is requested), and all processes agree on the plan. When sub-ranks are requested, every stage that the plan itself introduces uses at most that many processes.",
  ["inputs", "configurations"],
  "all partitions with orders, process counts, complex and real-to-complex, all plan options",
  "Unit tests check one or two literal plans.",
  ["src/heffte_plan_logic.cpp", "include/heffte_plan_logic.h"],
  [("plan_pencil_reshapes / plan_slab_reshapes and variants", "src/heffte_plan_logic.cpp"), ("plan_operations", "src/heffte_plan_logic.cpp")],
  observe=["logic plan: stage distributions and transform directions"])

prop("C12", "The built-in 1-D FFT is correct for every length",
  "The library's own FFT engine computes the forward and backward DFT for every transform length (powers, composites, prime squares, primes small and large), every stride, batch and vector-lane remainder, complex-to-complex, real-to-complex and complex-to-real, in both precisions, with and without vector instructions, up to rounding.",
  ["inputs", "configurations"],
  "all lengths 1..several thousand and selected large primes, strides, counts, precisions, vector widths",
  "Unit tests compare literal outputs for lengths below about 20.",
  ["include/stock_fft/heffte_stock_tree.h", "include/stock_fft/heffte_stock_algos.h", "include/heffte_backend_stock.h"],
  [("call tree factorisation", "include/stock_fft/heffte_stock_tree.h"), ("radix-2/3/4, composite, Rader, direct DFT", "include/stock_fft/heffte_stock_algos.h"), ("lane packing and remainder handling", "include/heffte_backend_stock.h")],
  observe=["output of the stock executors"])

prop("C13", "Backend executors transform any local box along any dimensions",
  "For every local box shape and storage order, each backend's local executor transforms exactly the lines of the box along the one, two or three requested dimensions, in either direction, for complex, real-to-complex and real-to-real kinds, and reports sizes matching what it reads and writes.",
  ["inputs", "configurations"],
  "all box shapes, storage orders, dimensions and pairs of dimensions, backends, precisions, directions",
  "Unit tests use a few cubes or small boxes, mostly in default order.",
  ["include/heffte_backend_fftw.h", "include/heffte_backend_mkl.h", "include/heffte_backend_stock.h", "include/heffte_r2r_executor.h"],
  [("stride/distance/howmany computation", "include/heffte_common.h fft1d_get_stride, fft1d_get_howmany"), ("1-D, 2-D, 3-D constructors", "include/heffte_backend_*.h")],
  observe=["arrays after executor forward/backward", "box_size, complex_size, workspace_size"])

prop("C14", "No communication schedule deadlocks, mismatches, leaks or changes the result",
  "Under every legal ordering of message delivery and process progress, including synchronous-only sends, plan creation, transforms and plan destruction terminate on all processes, with every send matched by a receive of the same size, collectives called consistently, no request, communicator or group left behind, and results bit-for-bit independent of the ordering.",
  ["schedules", "configurations", "inputs"],
  "all interleavings of processes and message deliveries permitted by the MPI standard x problems x algorithms",
  "Real MPI runs exercise one buffered, eager schedule on one node; unbuffered semantics and unusual completion orders never occur.",
  ["src/heffte_reshape3d.cpp", "include/heffte_utils.h", "include/heffte_reshape3d.h", "include/heffte_plan_logic.h"],
  [("post receives, send, wait-any/unpack", "src/heffte_reshape3d.cpp reshape3d_pointtopoint"), ("sub-communicators for collectives", "src/heffte_reshape3d.cpp, include/heffte_utils.h")],
  state=[("posted requests and sub-communicators", "outstanding communication objects", "src/heffte_reshape3d.cpp")],
  observe=["simulated MPI: blocked processes, unmatched messages, handle counts, output bits"])

prop("C15", "A plan can be reused in any order of calls without memory of earlier calls",
  "The result of each forward or backward call on a plan depends only on that call's arguments and the plan's construction: any interleaving of calls with differing direction, precision, scaling, array type, batch size, workspace and of several live, moved or destroyed plans gives the same results as fresh plans, and failed calls leave plans usable.",
  ["histories"],
  "all sequences of operations over several plans sharing processes",
  "Tests create a plan and call forward and backward once or twice in the natural order.",
  ["include/heffte_fft3d.h", "include/heffte_fft3d_r2c.h", "include/heffte_backend_fftw.h", "include/heffte_backend_mkl.h", "include/heffte_backend_stock.h"],
  [("lazy creation of per-precision, per-direction plans", "include/heffte_backend_*.h make_plan")],
  state=[("lazily created backend plans, mutable members", "cached FFT plans per precision/direction", "include/heffte_backend_*.h")],
  observe=["outputs of every call in the history"])

prop("C16", "The C interface is equivalent to the C++ interface",
  "Every C function produces the same results as the corresponding C++ call: plans for the same boxes, backend and options report the same sizes and kinds, transforms in all precisions, buffered or not, with every scaling give identical arrays; option defaults equal the C++ defaults, and invalid requests return the documented nonzero codes without crashing or leaking. Destroying a plan releases everything it held.",
  ["inputs", "histories", "configurations"],
  "all box/option/backend combinations, call kinds, scalings and create/use/destroy sequences through the C interface",
  "test_c.c runs one 2-process problem per backend with default options.",
  ["src/heffte_c.cpp", "include/heffte_c.h", "include/heffte_c_defines.h"],
  [("plan dispatch by backend and kind", "src/heffte_c.cpp call_returnable_c"), ("option translation", "src/heffte_c.cpp options_from_c_options")],
  observe=["arrays and return codes of the C calls"])

prop("C17", "The Python interface is equivalent to the native library",
  "For every distribution, storage order, backend, precision and scaling, plans built from Python report the same sizes and compute the same forward and backward arrays (complex and real-to-complex, buffered and unbuffered) as the mathematical transform, accept every array pairing the documentation allows, raise the documented exception for mismatched sizes, types, scalings or backends, and their decomposition helpers return exact partitions.",
  ["inputs", "configurations"],
  "all boxes, backends, dtypes, scalings, directions reachable from Python on any number of processes",
  "Two scripts run one fixed 2-process example each.",
  ["python/heffte.py", "src/heffte_c.cpp"],
  [("ctypes marshalling", "python/heffte.py"), ("C entry points", "src/heffte_c.cpp")],
  observe=["numpy arrays and exceptions on each rank (real MPI)"])

prop("C18", "The Fortran interface is equivalent to the native library",
  "For every distribution, storage order, backend, precision and scaling, plans built from Fortran report the same sizes and compute the same forward and backward arrays (complex and real-to-complex) as the mathematical transform on any number of processes.",
  ["inputs", "configurations"],
  "all boxes, orders, directions, precisions, scalings reachable from the Fortran modules",
  "One fixed 2-process example is run.",
  ["fortran/generated/heffte_fftw.f90", "fortran/generated/heffte_fftwFORTRAN_wrap.cxx", "fortran/heffte.cmake.i"],
  [("generated wrappers", "fortran/generated"), ("interface definition", "fortran/heffte.cmake.i")],
  observe=["Fortran arrays on each rank (real MPI)"])

prop("C19", "Invalid requests are rejected cleanly instead of corrupting or hanging",
  "Vectors smaller than the plan's reported sizes, boxes that overlap or do not fill the grid, and grids too small for the number of processes are reported by a C++ exception (a nonzero code through the C interface, also for unavailable backends and unknown options) on every process of the communicator, with no out-of-bounds access, no leaked communicator and no process left waiting. Valid requests are never rejected.",
  ["inputs", "fault_sequences"],
  "all single-fault mutations of valid plan and call arguments",
  "Tests barely exercise error paths.",
  ["include/heffte_fft3d.h", "include/heffte_fft3d_r2c.h", "src/heffte_plan_logic.cpp", "include/heffte_geometry.h", "src/heffte_c.cpp"],
  [("size checks in vector overloads", "include/heffte_fft3d.h"), ("world_complete check in plan creation", "src/heffte_plan_logic.cpp")],
  observe=["exceptions and return codes on all ranks"])

prop("C20", "Tracing is transparent and its log is well formed",
  "With tracing compiled in, enabled or not, every transform gives bitwise the same result as without tracing; the log of each process holds one line per executed operation with its name, a start time within the traced interval and a non-negative duration, and re-initialising starts an empty log.",
  ["histories", "configurations"],
  "all transform sequences between trace initialisation and finalisation, on any number of processes",
  "The trace test checks one transform and that the file exists.",
  ["include/heffte_trace.h", "src/heffte_reshape3d.cpp", "src/heffte_compute_transform.cpp"],
  [("RAII event recording", "include/heffte_trace.h add_trace")],
  state=[("event log and file name", "events recorded since initialisation", "src/heffte_reshape3d.cpp")],
  observe=["outputs with and without tracing", "log files"])

prop("C21", "Plans built with 64-bit indexes behave exactly like 32-bit ones",
  "For every problem representable in 32 bits, building boxes and plans with 64-bit indexes gives the same decompositions, reported sizes and bit-identical transform results as with 32-bit indexes, and geometric counts and workspace sizes stay exact when products exceed 32 bits.",
  ["inputs", "configurations"],
  "all boxes, distributions, kinds and options in both index types",
  "One 4-process problem is run with 64-bit indexes.",
  ["include/heffte_geometry.h", "src/heffte_plan_logic.cpp", "src/heffte_reshape3d.cpp"],
  [("index template parameter", "include/heffte_geometry.h box3d, src/heffte_plan_logic.cpp, src/heffte_reshape3d.cpp explicit instantiations")],
  observe=["outputs, sizes, box counts in both index types"])

prop("C22", "Vectorised complex arithmetic equals scalar complex arithmetic lane by lane",
  "Every operation of the built-in vector complex type (load, strided load, store, add, subtract, multiply, divide, fused multiply-add and -subtract, negate, conjugate, modulus, multiplication by i, mixed real operands, compound assignment) gives in each lane the scalar complex result up to rounding, for every supported width and precision and independently of the other lanes.",
  ["inputs"],
  "all finite lane values of moderate magnitude, all widths 1/2/4/8/16, both precisions",
  "Unit tests use one or two literal packs per operation.",
  ["include/stock_fft/heffte_stock_complex.h", "include/stock_fft/heffte_stock_vec_types.h"],
  [("intrinsic wrappers", "include/stock_fft/heffte_stock_vec_types.h")],
  observe=["lane values"])

prop("C23", "Transforms work on any communicator and confine work to requested sub-ranks",
  "A plan built on any sub-group or reordered communicator involves only the processes of that communicator, concurrent plans on disjoint or overlapping communicators do not interfere, and a plan with a restricted number of sub-ranks (or a sub-communicator) still delivers each process's correct output box while no stage introduced by the plan uses more than the requested processes.",
  ["configurations", "inputs", "schedules"],
  "all communicators (subsets, permuted ranks, disjoint, nested), sub-rank counts, problems, interleavings",
  "test_subcomm runs 8 and 12 ranks with fixed grids on the world communicator.",
  ["include/heffte_fft3d.h", "src/heffte_plan_logic.cpp", "src/heffte_reshape3d.cpp", "include/heffte_utils.h"],
  [("sub-rank padding with empty boxes", "src/heffte_plan_logic.cpp"), ("rank translation in exchanges", "src/heffte_reshape3d.cpp")],
  observe=["outputs on each process; messages per communicator in the simulated MPI"])

prop("C24", "GPU backends give the same results as CPU backends",
  "Plans using the CUDA, ROCm or oneAPI backends return the same output boxes as the CPU backends for every problem, up to rounding.",
  ["inputs", "configurations"],
  "all problems on the GPU backends",
  "The tests cannot run without the vendor toolkits.",
  ["src/heffte_backend_cuda.cu", "src/heffte_backend_rocm.hip.cpp", "src/heffte_backend_oneapi.cpp", "include/heffte_backend_cuda.h", "include/heffte_backend_rocm.h", "include/heffte_backend_oneapi.h"],
  [("vendor FFT wrappers and packing kernels", "src/heffte_backend_cuda.cu and siblings")])

prop("C25", "Every CPU build configuration computes correctly and serves its own engines",
  "In every supported build configuration of the CPU library (any combination of the FFTW and MKL engines including none, with or without vector units, tracing or assertions, any supported compiler, language standard and optimisation level) every plan returns the transform of its input as defined, through C++ and C; the engines reported as enabled are exactly those built in, the default engine is MKL, then FFTW, then the built-in one, and the C interface serves exactly the engines built in and answers code 1 for any other.",
  ["configurations", "inputs", "schedules"],
  "all build configurations, and in each all problems, options, calls and schedules",
  "The test suite runs in the one configuration it was built in; code selected by other configurations is not even compiled.",
  ["include/heffte_common.h", "include/heffte_backend_stock.h", "include/stock_fft/heffte_stock_complex.h", "src/heffte_c.cpp", "include/heffte_c_defines.h", "include/heffte_config.cmake.h"],
  [("conditional compilation", "Heffte_ENABLE_* in include and src"), ("choice of the default backend", "include/heffte_common.h default_backend, include/heffte_backend_*.h")],
  observe=["outputs; is_enabled and default_backend; return codes of the C interface"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
