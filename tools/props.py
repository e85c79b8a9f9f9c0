"""Source of properties.jsonl (run: python3 tools/props.py)."""
import json, os

U = "fv3gfs/util/"
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": [U + f for f in files],
            "mechanism": [{"name": n, "where": U + w} for n, w in mech],
            "state": [{"name": n, "meaning": m, "where": U + w} for n, m, w in state],
            "observe_at": observe,
        },
    })


p("C01", "Scalar halo updates fill exactly the halo with the adjacent cells",
  "After a cubed-sphere halo update of width n, every storage point in the first n halo rows or columns beside an edge of the rank's subtile, "
  "and in the n-by-n corner blocks that do not touch a corner of the cube, holds the value of the compute-domain point of the neighbouring "
  "rank that occupies that place when the cube's faces are unfolded across the shared edge (interface quantities skip the shared edge point). "
  "Every other storage point of every rank, including the compute domain, the blocks at cube corners and points deeper than n, is unchanged, "
  "whatever the dtype, dimension order, extra dimensions, padding or memory layout of the quantity.",
  ["configurations", "inputs"],
  "all ranks of every square layout, every subtile size, staggering, dimension order, halo width not exceeding the subtile, dtype and memory layout",
  "Tests check a few layouts with rank-constant or edge-constant data, a fixed dimension order and C-contiguous arrays through a mocked communicator; a wrong rotation, offset or axis in another combination is invisible.",
  ["communicator.py", "boundary.py", "_boundary_utils.py", "rotate.py", "partitioner.py"],
  [("start_halo_update / HaloUpdateRequest.wait", "communicator.py"), ("get_boundary_slice", "_boundary_utils.py"), ("rotate_scalar_data", "rotate.py"), ("CubedSpherePartitioner.boundary", "partitioner.py")],
  ["Quantity.data of every rank before and after halo_update"])

p("C02", "Vector halo updates carry both components across cube edges consistently",
  "After a cubed-sphere vector halo update of width n, each halo point of the two component quantities (on any Arakawa A, B, C or D staggering) holds the "
  "component of the neighbouring rank's vector, at the place that point occupies when the faces are unfolded across the shared edge, expressed along the receiving face's axes: components are exchanged and sign-changed exactly as the "
  "geometric rotation between the two faces requires. Every other storage point of both components on every rank is unchanged. The result does not depend on the dtype, dimension order, extra dimensions or memory layout.",
  ["configurations", "inputs"],
  "all ranks of every square layout, staggering pair, subtile size, dimension order, halo width, signed dtype and memory layout",
  "Tests use rank-constant vectors on a few layouts; component order within an edge, interface offsets and signs for other staggerings or dimension orders are not separated.",
  ["communicator.py", "rotate.py", "_boundary_utils.py", "partitioner.py"],
  [("start_vector_halo_update", "communicator.py"), ("rotate_vector_data", "rotate.py")],
  ["Quantity.data of both components on every rank"])

p("C03", "Synchronized vector interfaces agree on both sides of every shared edge",
  "After synchronizing the interfaces of a D-grid vector (x component on y-interfaces, y component on x-interfaces), every component value on the north and east edge of a rank's compute domain equals, "
  "point by point and expressed along the receiving face's axes, the value its neighbour held there on its own south or west edge before the call. "
  "No other storage point of either component changes on any rank, for any dtype, extra dimensions, dimension order or memory layout.",
  ["configurations", "inputs"],
  "all ranks of every square layout, subtile size, dimension order, signed dtype and memory layout",
  "Tests compare horizontally-uniform or purely two-dimensional fields on small layouts; orientation along the edge with vertical dimensions in any position is not exercised.",
  ["communicator.py", "rotate.py", "partitioner.py"],
  [("start_synchronize_vector_interfaces", "communicator.py"), ("rotate_scalar_data", "rotate.py")],
  ["Quantity.data of both components on every rank"])

p("C04", "Overlapping asynchronous exchanges complete and never mix, in any timing",
  "When all ranks start the same sequence of halo updates, vector halo updates and interface synchronizations (interleaved with tile or cube collectives) and wait on every request once, each rank completes and ends with the data of "
  "the sequential result under every legal message-passing timing, whether sends are buffered or synchronous, and in whatever order requests are waited on provided sends are buffered or all ranks wait in the same order. "
  "Values sent are those present when the update was started, and a rank may overwrite its quantities as soon as its own wait has returned without affecting what other ranks receive. "
  "No message is lost, duplicated, left unreceived, or delivered to a different update.",
  ["schedules", "programs"],
  "all programs of up to 3 overlapping updates per rank and all interleavings of the ranks' MPI operations up to a stated deviation bound",
  "Unit tests run ranks one after another through a mock that deep-copies sends and ignores tags; real schedules, rendezvous sends and overlapping updates are never explored.",
  ["communicator.py", "buffer.py"],
  [("HaloUpdateRequest, _Isend, _Irecv, _get_halo_tag", "communicator.py"), ("send_buffer/recv_buffer", "buffer.py")],
  ["Quantity.data after wait", "outstanding MPI requests and messages at exit"],
  [("halo tag counter", "identifies the update a message belongs to", "communicator.py")])

p("C05", "Boundaries describe the topology of the cube on every layout",
  "For every square layout and rank, the boundary of each of the eight directions names as target the rank that touches the subtile there on the cube, with the number of clockwise quarter turns between the two faces' axes, and there is no boundary exactly at cube corners; "
  "for a single tile of any layout the targets wrap around periodically with no rotation. Boundaries are mutual: the target rank has one boundary back, of the opposite turn count. "
  "A partitioner's answers do not depend on which boundaries were asked for earlier, on other partitioners, or on what callers did to boundaries it returned previously.",
  ["configurations", "histories"],
  "all layouts up to a bound, all ranks and directions, all ordered pairs of queries",
  "Tests list expected targets for a few ranks of 1x1, 2x2 and 3x3 layouts, each queried once on a fresh partitioner.",
  ["partitioner.py", "boundary.py", "communicator.py"],
  [("CubedSpherePartitioner.boundary", "partitioner.py"), ("TilePartitioner.boundary", "partitioner.py"), ("CubedSphereCommunicator.boundaries", "communicator.py")],
  ["from_rank, to_rank, n_clockwise_rotations, boundary_type of returned boundaries"],
  [("boundary cache", "memoised boundaries shared between calls", "partitioner.py")])

p("C06", "The domain decomposition is an exact cover and its size functions are inverse",
  "For every layout and every global size that divides evenly, the non-overlapping subtile slices of all ranks partition the global (tile or cube) index space, each point owned by exactly one rank and points shared on interfaces by the greater rank, while the overlapping slices additionally include the shared end points, have exactly the extent the partitioner reports for a subtile, and follow the rank's (row, column) position on its tile. "
  "Global-from-rank and rank-from-global extents are inverse of one another, and rank, tile index, tile root rank and subtile position are related one to one.",
  ["configurations", "inputs"],
  "all (y, x) layouts including non-square ones up to a bound, 1 to 256 ranks along an axis, all dimension lists and orders",
  "Tests check hand-picked layouts and extents; the divisions are done in floating point, so particular rank counts can misbehave.",
  ["partitioner.py", "utils.py"],
  [("subtile_slice, *_extent", "partitioner.py"), ("list_by_dims", "utils.py")],
  ["return values of subtile_slice, subtile_extent, global_extent, subtile_index, tile_index, tile_root_rank"])

p("C07", "Scatter and gather move every point to its place and nothing else",
  "Scattering a global tile or cube quantity gives every rank exactly the values of its (overlapping) subtile of the compute domain, and gathering gives the root exactly the global compute domain, with shared interface points taken from one of the ranks holding them; gather after scatter is the identity. "
  "Dimensions, units and dtype are preserved (a tile dimension is added or removed for the cube), and a supplied receiving quantity is filled in place and returned, leaving its halo and the sent quantities unchanged. "
  "This holds for repeated calls with the same or different arrays, for any memory layout, and results of earlier calls are never altered by later ones.",
  ["configurations", "inputs", "histories"],
  "all layouts up to a bound, tile and cube communicators, dimension lists and orders, dtypes, memory layouts, halo offsets, and sequences of calls",
  "Tests gather and scatter once per mocked communicator, mostly C-contiguous and symmetric layouts; re-use of recycled buffers and mixed memory layouts are not separated.",
  ["communicator.py", "buffer.py", "partitioner.py"],
  [("Communicator.scatter/gather", "communicator.py"), ("array_buffer", "buffer.py")],
  ["Quantity.data and metadata on all ranks"])

p("C08", "State scatter and gather agree with the per-variable operations",
  "Scattering or gathering a state dictionary transfers every variable as the per-variable operation would, under its own name, and sets the time from the root; it succeeds when ranks hold their variables in different insertion orders and under every schedule. "
  "Entries of a supplied receiving state that are not sent are left untouched (including its time when none is sent), those that are sent are filled in place, and ranks that do not receive a gathered state leave theirs as it was.",
  ["configurations", "histories", "schedules"],
  "all small sets of variables, insertion orders per rank, presence or absence of time, and receive-state contents",
  "Tests use one dictionary order on every rank and do not combine missing times with pre-allocated states.",
  ["communicator.py"],
  [("scatter_state", "communicator.py"), ("gather_state", "communicator.py")],
  ["returned state dictionaries on all ranks"])

p("C09", "Views index relative to the compute domain exactly",
  "Indexing a quantity's view with integers and slices selects the storage points whose position relative to the start of the compute domain is the one given (missing slice ends mean the compute domain's ends; missing trailing dimensions mean their whole compute domain), and the corner and interior views shift horizontal indices to the corner's edges or to both ends of the compute domain as documented. "
  "Reads alias the storage, writes change exactly the selected storage points, and selecting by dimension name equals positional indexing. "
  "Too many indices raise an index error, and zero-dimensional quantities are read and assigned through [:].",
  ["inputs", "configurations"],
  "all indices and slices whose endpoints lie within the storage, all small origins, extents and paddings, all dimension orders of up to 3 dimensions",
  "Tests fix a handful of indices for one shape; defaulted bounds interact with origin, padding, dimension name and corner.",
  ["quantity.py", "_boundary_utils.py"],
  [("BoundedArrayView, BoundaryArrayView", "quantity.py"), ("shift_boundary_slice_tuple", "_boundary_utils.py")],
  ["arrays returned by view[...]; storage after view[...] = value"])

p("C10", "Transposition and conversion keep data and metadata consistent",
  "Transposing a quantity permutes its storage, dimensions, origin and extent by one and the same permutation, keeps units and dtype, and transposing back gives the original; a target naming a family of dimensions selects the one the quantity has, and missing or ambiguous targets are rejected. "
  "Conversion to a labelled array gives exactly the compute domain with its dimension names and units, and constructing from one reverses that. "
  "Reading any attribute or conversion never changes the quantity, its metadata, or later results, plain numbers and lists are accepted as data, and metadata lengths inconsistent with the data are rejected.",
  ["inputs", "histories"],
  "all dimension lists up to 4 dimensions, all permutations and dimension-family targets, and all pairs of accessor calls",
  "Tests check one example per permutation kind and call accessors once.",
  ["quantity.py"],
  [("Quantity.transpose, data_array, from_data_array, values", "quantity.py")],
  ["dims, origin, extent, units, data of quantities"])

p("C11", "Corner filling copies the right halo cells at cube corners only",
  "Filling scalar corners for a stencil direction sets each point of the n-by-n halo blocks at cube corners to the value found by folding it over the diagonal of that corner: for the x direction the block continues the adjacent halo rows so that stencils along x see the neighbouring face, and correspondingly for y, skipping the shared point of interface variables. "
  "Only ranks touching a cube corner change, only in those blocks, and no other storage point changes.",
  ["configurations", "inputs"],
  "all ranks of all layouts up to a bound, both directions, all staggerings, halo widths and paddings",
  "Tests fix one shape per corner.",
  ["_corners.py"],
  [("fill_scalar_corners", "_corners.py")],
  ["Quantity.data before and after"])

p("C12", "Pooled communication buffers are exclusive and transparent",
  "A buffer handed out for sending or receiving is contiguous, has the requested shape and dtype, and shares memory with no other buffer handed out at the same time; send buffers contain the array's values and never modify it, receive buffers deliver what was written into them to the array when released. "
  "An array that is already contiguous is passed through as itself, and buffers are re-used only after release, for the same allocator, shape and dtype, under any nesting or order of acquisitions and releases, including ones ended by exceptions.",
  ["histories", "inputs"],
  "all sequences of acquire/release/write/raise operations up to a depth over several shapes, dtypes, allocators and memory layouts",
  "Tests acquire at most two buffers in one fixed order.",
  ["buffer.py", "utils.py"],
  [("array_buffer, send_buffer, recv_buffer", "buffer.py"), ("is_c_contiguous, assign_array", "utils.py")],
  ["identity, memory overlap and contents of yielded arrays"],
  [("buffer pool", "released arrays by allocator, shape and dtype", "buffer.py")])

p("C13", "A Zarr store written in parallel holds every rank's data at every time",
  "After every rank has stored a sequence of states through a monitor, each variable in the Zarr group has dimensions time, tile and then the variable's own, and its value at each time and tile is the global assembly of the ranks' compute domains at that time, with units and dimension attributes recorded and the time axis decoding to the stored times. "
  "This holds for every interleaving of the ranks' store and communication operations: no rank's write is lost or overwritten, and no rank writes before the space for it exists.",
  ["schedules", "configurations", "histories"],
  "all interleavings (partial-order reduced or deviation-bounded) of store operations of 6 and 24 ranks for 1 to 3 times; all layouts, dimension orders and staggerings in bounded products",
  "Tests run the ranks one after another in one process; a chunk shared by two ranks or a resize racing a write only fails under concurrency.",
  ["zarr_monitor.py", "partitioner.py"],
  [("ZarrMonitor.store, _ZarrVariableWriter.append", "zarr_monitor.py"), ("array_chunks", "zarr_monitor.py")],
  ["contents and attributes of the Zarr group"],
  [("i_time", "next time index", "zarr_monitor.py")])

p("C14", "Stored Zarr history is append-only and survives rejected or interrupted stores",
  "Storing a further state never alters any previously stored time of any variable, at any intermediate point of the operation: if the run stops after any prefix of its store writes, all earlier times still read back as stored. "
  "A state whose variables differ from those of the first state, whose attributes or extents differ from those first stored, or whose calendar differs is rejected with an error, and after the rejection earlier times still read back exactly and valid states can be stored with all variables aligned with their times. "
  "What happens to data that the store already holds when a monitor is made is decided by its mode: the default replaces it, one for a new store refuses it and leaves it alone, one for reading never changes it.",
  ["crash_points", "histories", "fault_sequences"],
  "all prefixes of the writes to the store for histories of up to 3 stores, and all positions of a rejected state in such a history",
  "Tests read back only after clean completion and check that an error is raised, not what is left behind.",
  ["zarr_monitor.py"],
  [("ZarrMonitor.store, _check_writers, _ensure_compatible_attrs, _encode_time", "zarr_monitor.py")],
  ["contents of the store after each prefix of writes"])

p("C15", "Restart files load into the right variable, rank, dimension and time",
  "Loading a restart directory gives every rank, for each variable with known metadata in the tile's restart files (mandatory and optional ones), a quantity under its standard name with the documented dimensions and units and the rank's subtile of the data, and the time of the coupler file in its calendar (of several time records in a tile's file, the first). "
  "Restricting to names loads exactly those, labels select the prefixed files, supplied tracer properties name further variables (and do not rename those with known metadata), and a supplied state is filled in place. Variables without known metadata are loaded under their own name when the file gives their units and ignored otherwise.",
  ["configurations", "inputs"],
  "layouts up to 2x2 (3x3), label or none, all file-presence subsets of optional files, name restrictions, calendars and pre-allocated states",
  "Tests load one small data set on one layout and one calendar.",
  ["_legacy_restart.py", "io.py", "_properties.py", "communicator.py", "filesystem.py", "time.py"],
  [("open_restart", "_legacy_restart.py"), ("get_current_date_from_coupler_res", "io.py")],
  ["returned state on every rank"])

p("C16", "Writing and reading a state round-trips",
  "Reading back a state file returns the same set of names, and for every quantity (of a dtype and shape the file format represents, not named like a dimension) the same dimensions, units and compute-domain values and dtype, and the same time in the same calendar. "
  "A state without a time is refused. Writing does not modify the state, and the dataset made of a state holds the same names, dimensions, units, values and time.",
  ["inputs", "configurations"],
  "all combinations of dimension lists, dtypes, units strings, special values, halo offsets, memory layouts, calendars and times in a bounded product",
  "Tests round-trip one or two float arrays with unit 'm'.",
  ["io.py", "_xarray.py", "filesystem.py"],
  [("write_state, read_state", "io.py")],
  ["state returned by read_state"])

p("C17", "Nudging relaxes exactly the requested variables towards the reference",
  "The nudging tendency of each variable with a timescale is (reference minus state) divided by the timescale in seconds, with units of the state per second and the state's dimensions, and applying it adds tendency times timestep to the compute domain of exactly those variables; timestep equal to the timescale reproduces the reference. "
  "Halos, other variables, the reference and (for tendency calculation) the state itself are unchanged, and quantities with different halo widths or memory layouts are combined on their compute domains, and a requested variable missing from state or reference is an error that leaves both unchanged.",
  ["inputs", "configurations"],
  "all subsets of variables, timescales and timesteps from days to microseconds, dtypes, memory layouts and halo offsets in a bounded product",
  "Tests use whole-array quantities without halos and one or two timescales.",
  ["nudging.py"],
  [("apply_nudging, get_nudging_tendencies", "nudging.py")],
  ["state and tendencies after the call"])

p("C18", "Timers accumulate exactly the time between matching starts and stops",
  "Under every sequence of start, stop, timed-block, reset, enable, disable and query operations on several names, a timer reports for each name the sum of the elapsed times of its completed intervals since the last reset and their number, ignores operations while disabled, and rejects starting a running name, stopping an idle one, or disabling while something runs. "
  "A rejected operation or an exception inside a timed block leaves the timer usable, queries and returned tables never affect it (a query warns when intervals still run), and the null timer never accumulates anything.",
  ["histories"],
  "all operation sequences up to a depth over two names with a virtual clock",
  "Tests check short hand-written sequences with real sleeps.",
  ["_timing.py"],
  [("Timer, NullTimer", "_timing.py")],
  ["times, hits, enabled and raised errors"],
  [("running clocks and accumulations", "per-name state", "_timing.py")])

p("C19", "Allocated quantities have consistent sizes, origins and extents",
  "For every tile size, layout, halo width and dimension list, a subtile sizer gives compute extents equal to the partitioner's subtile (one more on interfaces), origins equal to the halo width on horizontal dimensions and zero elsewhere, and storage shapes of one common size for centre and interface dimensions that hold the halo on both sides. "
  "Quantities made by the factory have exactly those sizes, the requested units, dimensions and dtype, zeros or ones where requested, and memory of their own; a sizer built from a namelist equals one built from the corresponding parameters.",
  ["configurations", "inputs"],
  "all tile sizes and layouts up to a bound, all halo widths up to 4, all dimension lists up to 4 dimensions, dtypes",
  "Tests check a handful of parameter tuples.",
  ["initialization/sizer.py", "initialization/allocator.py", "partitioner.py"],
  [("SubtileGridSizer", "initialization/sizer.py"), ("QuantityFactory", "initialization/allocator.py")],
  ["shape, origin, extent, dtype, values of allocated quantities"])

p("C20", "The mock communicator agrees with MPI for ranks run one after another",
  "For every program of broadcasts and scatters from rank 0, gathers, point-to-point messages (untagged, receives completed in posting order) and splits that completes when the ranks of the mock communicator are run one after another in a legal order, each rank receives exactly what MPI would deliver. "
  "Messages between a pair of ranks arrive in the order sent, sent data is captured at the time of sending, and a receive or gather that would have to wait for another rank raises a concurrency error instead of returning wrong data, and succeeds when repeated once the data is there.",
  ["programs", "schedules"],
  "all programs of up to 3 communication steps on 2 to 3 ranks and all sequential rank orders",
  "The mock is used by the tests but only checked by a dozen fixed exchanges under mpirun.",
  ["testing/dummy_comm.py"],
  [("DummyComm", "testing/dummy_comm.py")],
  ["received buffers and raised errors"])

p("C21", "Rejected calls leave quantities and communicators usable",
  "A halo update, vector update or synchronization that is rejected for invalid arguments (more halo points than the storage holds, a vector not on the required grid, an unsupported layout) raises an error on every rank, changes no quantity and sends nothing that a later call could mistake for its own data. "
  "Valid calls made afterwards with the same communicator, before or after any number of rejections, give the same results as if the rejected calls had not been made.",
  ["histories", "fault_sequences", "schedules"],
  "all sequences of valid and rejected calls up to length 3 on all layouts up to 2x2",
  "Tests check only that the error is raised.",
  ["communicator.py", "_timing.py", "_boundary_utils.py"],
  [("start_halo_update, start_vector_halo_update, start_synchronize_vector_interfaces", "communicator.py")],
  ["Quantity.data on all ranks, raised errors, undelivered messages"])

p("C22", "Stream capture returns all output of the block and always restores the stream",
  "Everything written to the captured stream's file descriptor inside the block, by Python or by any code writing to the descriptor directly, is in the returned buffer in the order it reached the descriptor and does not reach the original destination; everything written before and after goes to the original destination. "
  "This holds for nested and repeated captures and for blocks that end with an exception, and no file descriptor is left open.",
  ["histories", "fault_sequences"],
  "all sequences of writes, nested captures and exceptions up to a depth",
  "Tests capture one write once.",
  ["_capture_stream.py"],
  [("capture_stream", "_capture_stream.py")],
  ["captured bytes, original stream's bytes, open descriptors"])

p("C23", "Storage-backed quantities stay coherent with their gt4py storage",
  "A quantity created for a gt4py backend, from a CPU storage, or by a backend's quantity factory exposes always the same storage object, of that backend, which shares its memory with the quantity's data: values written through storage, data or view are seen by the others after any sequence of operations, including halo updates, synchronizations, scatters, gathers and nudging. "
  "Quantities derived from it (transposed, scattered, gathered) have coherent storages of the same backend of their own, storages made by the library have the quantity's origin as default origin, and all operations give the values they give without a backend. "
  "Naming a backend together with a storage is a type error, as is asking a quantity without backend for its storage.",
  ["inputs", "configurations", "histories"],
  "all CPU backends and their memory layouts, ways of creation, dimension lists, dtypes and operation sequences",
  "The stencil toolkit is not installed where the tests run, so every test of storages is skipped.",
  ["quantity.py", "initialization/allocator.py", "communicator.py"],
  [("Quantity.storage / _initialize_storage", "quantity.py"), ("QuantityFactory.from_backend", "initialization/allocator.py"), ("_get_scatter_recv_quantity / _get_gather_recv_quantity", "communicator.py")],
  ["Quantity.storage, Quantity.data and Quantity.view after every operation"])

p("C24", "A missing optional package disables exactly what needs it",
  "The package imports with any subset of its optional dependencies (xarray, zarr, scipy, gt4py, mpi4py) missing, and every feature that needs none of the missing ones (quantities and views, communication, scatter and gather, allocation, nudging, timers, stream capture, buffers, mock communicator, conversions) gives the result it gives with all of them installed. "
  "A feature that needs a missing package (labelled arrays and datasets: xarray; state and restart files: xarray and scipy; Zarr output: zarr and xarray; storages: gt4py) raises an error when it is used, an ImportError where xarray or zarr is missing, and neither the failed use nor its repetition affects later uses of anything.",
  ["configurations", "histories"],
  "all subsets of five optional packages; every feature alone and in sequences with features that fail",
  "Tests run where every package they need is installed.",
  ["_optional_imports.py", "_xarray.py", "zarr_monitor.py", "quantity.py", "utils.py", "initialization/allocator.py"],
  [("RaiseWhenAccessed", "_optional_imports.py"), ("guarded imports", "zarr_monitor.py")],
  ["results and errors of the public functions"])

p("C25", "Conversions of times and comparisons of units are exact",
  "Converting a numpy datetime64 of any resolution down to microseconds, at any time in the years 1 to 9999, gives the naive datetime of exactly that instant whatever the local time zone (nanoseconds round to a neighbouring microsecond), and a value that no datetime can represent is refused. "
  "Two units strings are equal exactly when they agree apart from surrounding white space, and requiring equal units raises the units error exactly when they are not.",
  ["inputs", "configurations"],
  "days and times of day spread over all years in every resolution and four local time zones; all pairs of units strings up to a length",
  "No test covers these functions, and the machines tests run on are set to UTC.",
  ["time.py", "units.py"],
  [("datetime64_to_datetime", "time.py"), ("units_are_equal, ensure_equal_units", "units.py")],
  ["returned datetimes, booleans and errors"])

p("C26", "Copies are independent of their originals and stay coherent",
  "A deep copy or a pickle round trip of a quantity, alone or within a state, gives a quantity of the same data, dtype, dimensions, units, origin and extent that shares no memory with the original, while a shallow copy or a new quantity on the same array shares it. "
  "After any sequence of such copies, transpositions and writes through any accessor, every quantity shows the same values through its data, its view with interior and corners, its selections and conversions, and a write has reached exactly the quantities that share the written memory. "
  "Copied partitioners, boundaries, grid sizers and metadata answer as the originals do, and a deep copy of a timer takes over its history and running clocks and goes on by itself.",
  ["histories", "inputs"],
  "all sequences of copies, transpositions and writes up to a depth over several quantities, memory layouts and dimension lists; all pairs of uses of an object and its copy",
  "Tests deep-copy a few quantities to compare with later; none copies a copy, pickles one, or writes to several sharers.",
  ["quantity.py", "partitioner.py", "boundary.py", "_timing.py"],
  [("Quantity.__init__, BoundedArrayView", "quantity.py")],
  ["data, view, corners, interior, selections and metadata of every copy after every operation"],
  [("data and the views on it", "one array seen through several accessors", "quantity.py")])

p("C27", "Repeating operations accumulates no memory, descriptors or files",
  "However often a process repeats an operation or a cycle of operations of the library, be it making or converting quantities, communicating, timing, capturing output, storing or reading states, the memory, objects, open descriptors, temporary files and threads it holds stop growing. "
  "The same holds for operations that are refused or whose body raises, for overlapping updates waited for in any order, and on every rank of a communicator. "
  "Storing to a monitor keeps nothing of earlier states in the process.",
  ["histories", "schedules"],
  "all cycles of up to a number of operations, repeated until a steady state, in one process and on communicating ranks",
  "Tests perform every operation a few times and never look at what remains; a model run repeats them for weeks.",
  ["buffer.py", "communicator.py", "_timing.py", "zarr_monitor.py", "io.py", "_capture_stream.py"],
  [("array_buffer", "buffer.py"), ("CubedSphereCommunicator", "communicator.py"), ("ZarrMonitor.store", "zarr_monitor.py")],
  ["traced memory, objects reachable from the library, descriptors, files, threads"],
  [("buffer cache", "process-wide dictionary keyed by allocator, shape and dtype", "buffer.py")])

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(path, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
