#!/usr/bin/env python3
"""Writes properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["swiftsimio/" + f for f in files], mechanism=[dict(name=n, where="swiftsimio/" + w) for n, w in mech],
        **({"observe_at": observe} if observe else {}), **({"state": state} if state else {}), hook_needed=None)))

p("C01", "A masked read returns exactly the selected rows",
  "Reading a dataset through a list of row ranges returns exactly the rows in those ranges, each once, in the order requested, for every layout of the data on disk (contiguous or in chunks of any length), for one-dimensional, multi-column and single-column reads, and for local files and remote streamed files alike. Empty ranges, adjacent ranges and ranges that reach the end of the dataset are not special. Streamed reads may request ranges in any order, only ever ask the server for sorted, non-overlapping, non-empty slices, and refuse overlapping ranges.",
  ["inputs", "configurations"], "all range lists, dataset lengths, chunk lengths, column choices, transports",
  "Tests read a handful of masks from one or two files whose chunking is fixed; off-by-one errors at chunk boundaries, merged neighbouring chunks, the ragged last chunk or unsorted streamed ranges need particular combinations of numbers.",
  ["accelerated.py", "_ordered_slices.py"], [("chunk cover and extraction", "accelerated.py"), ("sorted slice merging", "_ordered_slices.py")], ["array returned by the range readers"])
p("C02", "Index lists, ranges and boolean masks convert losslessly",
  "Turning a sorted list of distinct row indices into ranges and expanding the ranges again gives back the same indices, the ranges are in order, do not overlap and are not split needlessly, and an empty list gives an empty selection. Switching a mask between its range form and its boolean form, in either direction and any number of times, never changes which rows are selected, and the advertised selection size always equals the number of rows a load through the mask yields.",
  ["inputs", "histories"], "all index lists, all masks, all conversion sequences",
  "Tests convert a few masks of one snapshot; boundary runs (first/last row, single rows, gaps of one, empty selections) are sampled at best.",
  ["accelerated.py", "masks.py"], [("range encoding", "accelerated.py"), ("mask form conversion", "masks.py")], ["mask arrays and sizes per group"])
p("C03", "A spatial mask never drops a particle inside the region",
  "After constraining a mask to a box-shaped region, every particle whose position lies in that region (taking the periodic box into account, for regions that stick out over either edge and for regions given with the upper bound below the lower) is part of the selection of its particle type, as long as the file's cell metadata really bounds the particles (recorded particle extents, or cell size plus the configured padding when no extents are recorded). This holds for every cell layout and order of cells in the file, and after combining several regions with a union.",
  ["inputs", "configurations", "histories"], "all regions, particle positions, cell grids, recorded extents, paddings, unions",
  "Tests check one snapshot with a few regions; periodic wrap, inverted bounds, drifted particles and unsorted cells combine in ways no sample settles.",
  ["masks.py"], [("periodic cell overlap test", "masks.py"), ("cell metadata sorting", "masks.py")], ["selected row ranges per particle type"])
p("C04", "A spatial mask reads only cells that can reach the region",
  "A spatially constrained mask selects whole cells: the selected rows are exactly those of the cells whose extent (recorded or padded) overlaps the region or one of its periodic images, and no row of any other cell is read. A region spanning more than the box along an axis, or left open on an axis, does not restrict that axis. Region bounds outside [-L/2, 3L/2] are refused rather than misinterpreted.",
  ["inputs", "configurations"], "all regions, cell grids, offsets and counts, box sizes",
  "Over-selection is invisible to tests that only check that wanted particles are present; it needs a comparison with the exact cell set for arbitrary geometry.",
  ["masks.py"], [("cell overlap test and range generation", "masks.py")], ["selected row ranges per particle type"])
p("C05", "Mask constraints compose as documented or are refused",
  "Over any sequence of mask operations: spatial constraints combine only through an explicit union and then select the union of their cells; property constraints only ever remove rows, so that a sequence selects the intersection; row selections only act on an unconstrained mask. Every other combination raises an error and leaves the selection unchanged, and once constrained the mask reports the last constraint applied.",
  ["histories", "inputs"], "all sequences of constraint calls with all arguments",
  "Tests try a few call orders by hand; the space of sequences with mode changes (range/boolean form) between them is not sampled.",
  ["masks.py"], [("constraint bookkeeping", "masks.py")], ["selection and errors after each call"],
  [dict(name="constrained / range_mask", meaning="last constraint and current form of the mask", where="swiftsimio/masks.py")])
p("C06", "A property mask keeps exactly the rows with lower < value <= upper",
  "Constraining a mask on a field keeps a row exactly when it was selected before and its value, in the units and frame stored in the file, lies above the lower and not above the upper bound, whatever units or frame (comoving or physical) the bounds are given in. Rows of other particle types are not affected.",
  ["inputs", "configurations"], "all field values, bounds, units, scale factors, frames and prior selections",
  "Tests constrain temperature on one snapshot; equality at the bounds, already-narrowed masks and bounds given in the other frame are unsampled.",
  ["masks.py"], [("property filter", "masks.py")], ["boolean selection per particle type"])
p("C07", "Row selections return exactly the requested rows",
  "Constraining a catalogue mask to a list of row numbers selects exactly those rows, in ascending order, in every dataset of the file, and the advertised size is the number of rows a load yields. A list given out of order selects the same rows as the sorted list. Files whose groups have different lengths refuse row selections.",
  ["inputs"], "all index lists (order, first/last rows, runs) and catalogue sizes",
  "Tests use one list on one catalogue; runs, gaps, boundary rows and unsorted input are combinations.",
  ["masks.py", "accelerated.py"], [("row constraint", "masks.py")], ["loaded rows"])
p("C08", "A subset file's cell tables describe the rows it contains",
  "In a subset file written through a mask, the per-cell counts are the numbers of selected rows that came from each cell, they add up to the number of rows written and to the particle number in the header, the per-cell offsets locate each cell's rows in the subset, and cell centres and extents are listed in the same cell order as counts and offsets. This holds for range and boolean masks that cut through cells, for empty cells and for cells listed out of order in the source file.",
  ["inputs", "configurations"], "all cell tables (counts, order), all masks",
  "Tests write one subset and check a few fields; cells cut in the middle, empty cells with equal offsets and unsorted cells are not sampled.",
  ["masks.py", "subset_writer.py"], [("masked counts and offsets", "masks.py"), ("metadata copy", "subset_writer.py")], ["Cells group and header of the subset file"])
p("C09", "A subset file holds the same data a masked load would give",
  "Every dataset in a subset file contains exactly the rows the mask selects from the source dataset, in the same order, with the same type, trailing dimensions and attributes; other metadata groups are copied unchanged, and links are recreated. The particle numbers recorded for every type equal the number of rows stored.",
  ["inputs", "configurations"], "all masks, dataset contents, shapes and attribute sets",
  "Tests compare a few datasets of one file.",
  ["subset_writer.py"], [("dataset copy", "subset_writer.py")], ["datasets, attributes and header of the subset file"])
p("C10", "Loaded fields carry the units, a-exponent and frame the file states",
  "A field loaded with or without a mask has the values stored in the file, units equal to the product of the file's base units raised to the stored exponents, the stored scale-factor exponent at the file's scale factor, the comoving/physical state and the convertibility the file states, and each named column returns its own column of the dataset. Reading twice, deleting and re-reading, or reading other fields first makes no difference.",
  ["inputs", "configurations", "histories"], "all field values, exponents, flags, scale factors, column layouts, masks and access orders",
  "Tests read the fields of a few real snapshots; arbitrary exponents, flags, and columns under a mask are configurations they do not contain.",
  ["reader.py", "metadata/field/attr_reader.py"], [("lazy field getter", "reader.py"), ("attribute readers", "metadata/field/attr_reader.py")], ["loaded cosmo arrays"])
p("C11", "Comoving and physical frames differ by exactly the power of a",
  "Converting data with scale-factor exponent p between comoving and physical multiplies or divides the value by a^p, converting there and back returns the original value, converting to the frame it is already in changes nothing, and unit conversions commute with frame conversions. Data that states it cannot be converted raises instead of converting, and copying conversions never modify their input.",
  ["inputs", "configurations", "histories"], "all values, exponents, scale factors, units, conversion sequences",
  "Tests check a handful of numbers with one scale factor.",
  ["objects.py"], [("frame conversion", "objects.py")], ["value, units, frame and exponent after conversion"])
p("C12", "Arithmetic gives the same physics in either frame",
  "For every supported arithmetic operation or comparison between arrays or quantities that each are comoving or physical, converting the result to physical equals operating on the inputs converted to physical; the result's scale-factor exponent is the one the operation implies (sum for products, difference for quotients, unchanged for sums, zero for comparisons), and the inputs are left unmodified.",
  ["inputs", "configurations"], "all values, scale factors, exponents, frames of each operand, operand kinds and operations",
  "The tests check that attributes are attached for many functions but almost never the numerical value in mixed frames for arbitrary scale factors.",
  ["objects.py", "_array_functions.py"], [("ufunc dispatch", "objects.py"), ("cosmo factor rules", "_array_functions.py")], ["result of ufuncs and operators"])
p("C13", "Array functions give the same physics in either frame",
  "For the supported numpy array functions (sums, means, products, dot products, concatenation, stacking, sorting, selection, interpolation, differences, histograms and the like), converting the result to physical equals applying the function to the inputs converted to physical, also when inputs are in different frames; the result's scale-factor exponent is the one implied and inputs are left unmodified.",
  ["inputs", "configurations"], "all values, scale factors, exponents, frames of each operand, functions",
  "Tests compare attributes and a value for one scale factor with inputs in one frame; mixed frames are not sampled per function.",
  ["_array_functions.py"], [("array function wrappers", "_array_functions.py")], ["result of numpy functions on cosmo arrays"])
p("C14", "Incompatible scale-factor dependences are rejected",
  "Adding, comparing, concatenating or otherwise combining data that must share a dimension but have different scale-factor exponents or different scale factors raises an error and never returns a number; products and quotients of data at different scale factors raise as well. Combining data that cannot be converted between frames with data in the other frame raises or keeps them separate, and never silently relabels values.",
  ["inputs", "configurations"], "all pairs of exponents, scale factors, frames and convertibility flags, all combining operations",
  "Tests check a few pairs; a missing check shows only for the combination that reaches it.",
  ["objects.py", "_array_functions.py"], [("cosmo factor checks", "_array_functions.py")], ["exceptions"])
p("C15", "Scale-factor bookkeeping obeys exponent algebra",
  "Multiplying, dividing, raising to powers and taking roots of scale-factor dependences adds, subtracts and scales their exponents, the numerical factor always equals a to the exponent, operations at different scale factors (or mixing known and unknown dependences) raise, and comparison is consistent with the exponent and scale factor.",
  ["inputs"], "all exponents and scale factors",
  "Tests check single numbers.",
  ["objects.py"], [("cosmo factor class", "objects.py")], ["exponent, a_factor"])
p("C16", "Cosmology attributes survive copying, slicing and serialisation",
  "Copies, views, slices, single elements, reshapes, transposes, pickles and deep copies of an array keep its values, units, frame, scale-factor dependence, convertibility and compression record; modifying a copy leaves the original unchanged.",
  ["inputs", "configurations", "histories"], "all frames, exponents, flags, values, and chains of such operations",
  "Tests check single operations on one array.",
  ["objects.py", "_array_functions.py"], [("finalize/reduce/copy hooks", "objects.py")], ["attributes after the operation"])
p("C17", "Writing a snapshot and reading it back preserves the data",
  "Every array given to the snapshot writer, in any units of the right dimension and in either frame, comes back from the written file with the same physical value, whatever is done to its units or frame in the meantime, and the header, box size (given in either frame), particle numbers, units and per-dataset unit and scale-factor attributes describe what was written. Arrays of inconsistent length, wrong dimensions or a different scale factor are refused and nothing is written. Smoothing lengths generated by the writer are twice the mean particle separation.",
  ["inputs", "configurations"], "all values, units, frames, scale factors, particle numbers per type",
  "Tests write one or two small snapshots at fixed scale factors in comoving coordinates.",
  ["snapshot_writer.py"], [("dataset setters and attributes", "snapshot_writer.py")], ["file contents and reloaded arrays"])
p("C18", "Particle IDs in written snapshots are positive and unique",
  "Whatever mixture of particle types and numbers is written, if any type lacks IDs then IDs are generated for all types: they start at one, are contiguous and never repeat across types. If IDs are supplied for every type they are written unchanged, and the snapshot is refused exactly when one of them is not positive or repeats within or across types.",
  ["inputs", "configurations"], "all particle numbers per type and all supplied ID values",
  "Tests use one or two types with fixed numbers.",
  ["snapshot_writer.py"], [("ID generation and checks", "snapshot_writer.py")], ["ParticleIDs datasets"])
p("C19", "Parallel rendering uses every particle exactly once",
  "For every number of particles (including fewer particles than threads) and every number of threads, each parallel imaging, slicing, volume-rendering or deposition routine gives each particle to exactly one worker together with its own mass, position and smoothing length, so that the result is that of the serial routine.",
  ["inputs", "schedules", "configurations"], "all particle numbers and thread counts",
  "The number of threads is fixed by the test machine and particle numbers by the test data.",
  ["visualisation/projection_backends", "visualisation/slice_backends", "visualisation/volume_render_backends", "visualisation/power_spectrum.py"], [("per-thread partition", "visualisation/projection_backends/fast.py")], ["calls made to the serial routine, resulting grids"])
p("C20", "Rendering never writes outside the image",
  "For every particle position (inside, at the edge of, or outside the image), smoothing length, image resolution and periodic box, the imaging, slicing, volume-rendering and deposition routines only access pixels and particles that exist: no index is negative or beyond the end.",
  ["inputs", "configurations"], "all positions, smoothing lengths, resolutions, periodic boxes",
  "The routines are compiled without bounds checks in production; tests run a few thousand random interior particles.",
  ["visualisation/projection_backends", "visualisation/slice_backends", "visualisation/volume_render_backends", "visualisation/power_spectrum.py"], [("pixel range clipping", "visualisation/projection_backends/fast.py")], ["array indices"])
p("C21", "Images respect periodic boundaries",
  "In periodic mode a particle contributes to the image exactly as the sum of non-periodic contributions of its periodic copies that can reach the image; none is missing or counted twice, whichever edge or corner it is near. In particular the total contribution of a small particle does not depend on whether its kernel crosses the edge of the box.",
  ["inputs", "configurations"], "all positions, smoothing lengths not larger than the box, box sizes",
  "Tests compare with one replicated random particle set.",
  ["visualisation/projection_backends", "visualisation/slice_backends", "visualisation/volume_render_backends"], [("periodic shift loops", "visualisation/projection_backends/fast.py")], ["image pixels"])
p("C22", "Deposition is linear, non-negative and local",
  "Every imaging and deposition routine is linear in the deposited quantity and additive over particles, never produces a negative contribution from a positive quantity, gives nothing to pixels beyond the kernel's reach, and does not depend on the order of the particles. A particle too small to be resolved is deposited whole into the one pixel that contains it.",
  ["inputs", "configurations"], "all particles (position, mass, smoothing length), resolutions",
  "Tests check sums over random particles with loose tolerances.",
  ["visualisation/projection_backends", "visualisation/slice_backends", "visualisation/volume_render_backends", "visualisation/power_spectrum.py"], [("pixel loops", "visualisation/projection_backends/fast.py")], ["image pixels"])
p("C23", "Smoothing kernels are positive, compact, decreasing and normalised",
  "Each smoothing kernel is non-negative, decreases with distance, vanishes at and beyond its support radius, scales with smoothing length as its dimension demands, and integrates to one over its support.",
  ["inputs"], "all radii and smoothing lengths",
  "Tests evaluate kernels at sample radii.",
  ["visualisation/projection_backends/kernels.py", "visualisation/slice_backends/sph.py"], [("kernel functions", "visualisation/projection_backends/kernels.py")], ["kernel values"])
p("C24", "Visualisation maps the requested region onto the image",
  "The projection, slice and volume functions hand the chosen backend positions, smoothing lengths and box sizes relative to the requested region, so that a particle lands in the pixel of the image that its position in the region corresponds to; a depth range keeps exactly the particles inside it (through the periodic boundary too), masks keep exactly the masked particles, the image has the aspect ratio of the region, and its units and frame are those of the quantity per area or volume. The user's data are left as they were.",
  ["inputs", "configurations", "histories"], "all regions, positions, masks, frames, periodic or not",
  "Tests use a few regions of one snapshot; regions across the edge, in the other frame or with unequal sides are unsampled.",
  ["visualisation/_vistools.py", "visualisation/projection.py", "visualisation/slice.py", "visualisation/volume_render.py"], [("region normalisation", "visualisation/_vistools.py")], ["arguments given to the backend, returned image, input data afterwards"])
p("C25", "Rotation matrices are proper rotations onto the requested axis",
  "For every non-zero direction vector and every axis, the rotation matrix is orthogonal and maps the direction onto the axis (or the axis onto the direction, as documented), independent of the vector's length; rotated coordinates keep distances from the rotation centre.",
  ["inputs"], "all direction vectors, axes and centres",
  "Tests use a few vectors.",
  ["visualisation/rotation.py", "visualisation/_vistools.py"], [("rotation matrix", "visualisation/rotation.py")], ["matrix and rotated coordinates"])
p("C26", "Density deposition for power spectra conserves mass",
  "Depositing particles on a mesh, with any folding, puts each particle's whole mass into the cell that contains its folded position, so that the mesh summed with its cell volume gives the total mass, independent of shifting particles by whole box lengths.",
  ["inputs", "configurations"], "all positions, masses, resolutions, foldings, box shapes",
  "Tests compare one random set.",
  ["visualisation/power_spectrum.py"], [("deposit", "visualisation/power_spectrum.py")], ["deposited mesh"])
p("C27", "Two-dimensional colour maps stay in range",
  "Applying a two-dimensional colour map to any pair of values (NaN excluded), given as lists, tuples or arrays, returns one colour per pair: the colour of the grid point within one cell of the values, horizontal and vertical value along the axes the map is plotted with, values outside [0, 1] clamped to the edge. In maps generated from defining colours and coordinates every component of every colour lies between the smallest and largest of that component among the defining colours (within 2e-4), and a defining point at least 1 away from all others gets its own colour.",
  ["inputs"], "all pairs of values, all defining colours",
  "Tests only check that maps can be constructed and applied to random values.",
  ["visualisation/tools/cmaps.py"], [("colour lookup", "visualisation/tools/cmaps.py")], ["returned colours"])
p("C28", "Particle and object numbers are reported as stored",
  "The number of particles of each type (and of subhaloes and groups) reported by the metadata equals the one stored in the header, for every count; exactly the types the header lists (those with particles, or those flagged as possible) are offered, each under its own name and read from its own group, mass tables and element mappings are exposed under the types and columns they belong to, and field and group names (of snapshots, SOAP catalogues, group catalogues and lines of sight) map one to one to names in the file.",
  ["inputs", "configurations"], "all header counts and flags, all sets of present types, groups and datasets",
  "Tests use real snapshots with small counts.",
  ["metadata/objects.py"], [("header post-processing", "metadata/objects.py")], ["n_<type>, present types"])
p("C29", "Statistics columns hold the values of the file",
  "Every column of a statistics text file is read into the attribute of that column with every row's value and the units the header declares, whether values are written as integers, decimals, in exponent notation or as nan or inf, in any order down the column.",
  ["inputs"], "all numeric texts and column layouts",
  "Tests read one file.",
  ["statistics.py", "accelerated.py"], [("text parsing", "accelerated.py")], ["arrays"])
p("C30", "Smoothing lengths are generated for every particle",
  "Generating smoothing lengths assigns each particle the distance to its own requested neighbour, scaled as documented, for every number of particles, with no particle left unset or given another particle's value, and with the units and frame of the coordinates.",
  ["inputs", "configurations"], "all particle numbers across block boundaries",
  "The block size is far above test particle numbers, so only the first block is ever exercised.",
  ["visualisation/smoothing_length/generate.py"], [("block loop", "visualisation/smoothing_length/generate.py")], ["smoothing length array"])
p("C31", "Constructing cosmology arrays from other data keeps physics",
  "A cosmology array or quantity built from other cosmology arrays or quantities, a list of them, unyt data, or astropy or pint quantities represents the same physical values as its input: when a frame is asked for the values are converted to it, otherwise the frame of the input is kept (members of a list in different frames are brought to one). The scale-factor dependence given is used where the input has none; members of a list with different dependences, two different scale factors, or a comoving frame for data that cannot be converted are refused. Data that cannot be converted stay so, and the objects passed in are left unmodified.",
  ["inputs", "configurations"], "all values, scale factors, exponents, frames and convertibility of the input, all combinations of constructor arguments, all input kinds",
  "Tests construct arrays with one argument at a time, mostly from plain lists; converting on construction, mixed lists and inputs that already carry attributes are combinations they do not contain.",
  ["objects.py"], [("array constructors", "objects.py"), ("constructor argument parsing", "objects.py")], ["constructed object and the inputs afterwards"])
p("C32", "Metadata quantities and the cosmology are those of the file",
  "The quantities swiftsimio offers with a file have the values and units the file states, in whatever unit system it was written, for snapshots, subsets, lines of sight and catalogues, and whether metadata are read directly, through a load or through a mask: time, redshift, scale factor (1 where the file has none), dimension, the comoving box size, photon group edges, reduced speed of light, adiabatic index, run and system names; what the file lacks is None or empty. The cosmology object of a cosmological run has the file's Hubble constant, densities, equation of state, background temperature (or the one its radiation density implies), effective number of neutrinos, and a mass for each neutrino species according to the degeneracies; runs without cosmology have none, and models that cannot be expressed are refused.",
  ["inputs", "configurations"], "all values, unit systems, file types, presence or absence of every optional entry, neutrino descriptions",
  "Tests compare the cosmology of one snapshot with itself; other unit systems, missing temperatures, massive neutrinos with degeneracies, and refusals are not in any test file.",
  ["metadata/objects.py", "metadata/metadata/metadata_fields.py", "conversions.py", "metadata/unit/unit_types.py"], [("header unpacking", "metadata/objects.py"), ("cosmology conversion", "conversions.py")], ["metadata attributes", "cosmology object"])
p("C33", "Lazy loading is invisible and files are left as they were found",
  "Which fields have been read before, in what order, and what was done to them cannot be told from the values a dataset gives: every field of every sequence of reads, assignments, in-place changes and deletions is what the file states (or what the user put there), deleting reads it again from the file, and narrowing or converting a mask, or another dataset from the same file, changes no field already loaded. Loading, masking, validating, subsetting and reading fields leave the input file as it was, close every handle swiftsimio opened, also when they refuse the file, and leave a handle given by the user open and usable; a dataset loaded by a handle still reads its fields after that handle is closed.",
  ["inputs", "histories"], "all sequences of operations within bounds, all values, all ways of naming the file, all listed malformed files",
  "Tests read one field after loading; histories that mix deletion, mutation, several datasets and masks, and leaked handles after refusals, are not in any test file.",
  ["reader.py", "_handle_provider.py", "masks.py", "subset_writer.py", "metadata/objects.py", "swiftsimio/__init__.py"], [("field properties", "reader.py"), ("handle management", "_handle_provider.py")], ["field values", "open handles", "file contents"])
p("C34", "Power spectra measure the fluctuations of the mesh",
  "The power spectrum of a mesh has in each bin the box volume times the mean squared modulus of the Fourier transform of the overdensity over exactly the modes whose wavenumber lies between the bin's edges (minus the stated shot noise), the mean wavenumber of those modes and their number; a cross spectrum of two meshes is the same with the product of the transforms; both are unchanged by factors, cyclic shifts, mirroring and transposition of the mesh. Folded meshes measure the same spectrum at wavenumbers multiplied by the folding, and a combined spectrum takes each bin from the folding that measures it with the most modes below its cutoff. Power carries the units and scale-factor exponent of a volume and wavenumbers those of an inverse length, whatever the frames of mesh, box and bins; the inputs are left unmodified, and meshes that are not equal cubes are refused.",
  ["inputs", "configurations"], "all mesh values within bounds, bins, foldings, frames, units, cutoffs and shot noise within bounds",
  "Tests compare spectra of one snapshot with a reference implementation to within a tolerance; frames, labels, combinations and cross spectra of arbitrary meshes are not in any test file.",
  ["visualisation/power_spectrum.py"], [("spectrum of a mesh", "visualisation/power_spectrum.py"), ("combination of foldings", "visualisation/power_spectrum.py")], ["power, wavenumbers, counts", "labels"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
