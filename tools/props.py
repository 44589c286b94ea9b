"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=files.split(),
                  mech=mech, state=state, observe=observe, note=note))


DS = "hftools/dataset/"
prop("C01", "Operators align arrays by dimension name, never by position",
     "For any two labelled arrays (or an array and a number, or a plain array over the same dimensions), each of + - * / // % **, & | ^ and the six comparisons gives, at every combination of coordinates, exactly the operation applied to the two operands' values at those coordinates, whatever order or subset of dimensions each operand has. The result carries the union of the dimensions (sweeps before repetitions before matrix rows before matrix columns), operands are not modified, and operands whose common dimension differs in size are rejected. The in-place forms of the operators store that result in the array on the left, which keeps its dimensions, and refuse operands with dimensions it lacks.",
     "inputs", "all pairs of arrays over any dimensions, orders, sizes and dtypes; all scalars and plain arrays",
     "tests sample a handful of 1-3 dimensional pairs, mostly of equal dims or in sorted order",
     DS + "arrayobj.py", [("operator wrapper that reshapes both operands to the union of dims", "arrayobj.py check_instance, make_same_dims, change_shape, dims_union")])
prop("C02", "Selecting and rearranging keeps each value with its coordinates",
     "After any sequence of indexing (integers, slices with any step, ellipsis, integer lists, boolean masks; non-empty selections), taking, transposing, matrix-transposing, reordering dimensions and squeezing, every remaining value is the one the original array had at the coordinates its dimensions now show. The shape always agrees with the dimensions, and out-of-range or otherwise invalid selections raise an error and leave the array unchanged.",
     "inputs histories", "all arrays, all selections and all sequences of them",
     "tests check a few single selections on fixed small arrays, never compositions",
     DS + "arrayobj.py " + DS + "dim.py", [("coordinate selection next to data selection", "arrayobj.py _hfarray.__getitem__, take, transpose, reorder_dimensions, squeeze, t"), ("coordinate slicing", "dim.py DimBase.__getitem__")])
prop("C03", "Reductions along named dimensions equal the plain numeric reduction",
     "sum, mean, std, var, min, max, rss, cumulative sum and cumulative product along a dimension given by name, number (also negative), object or class, or along several of them, equal the plain numeric reduction over exactly those axes (with the requested delta degrees of freedom). The remaining dimensions keep their names, order and coordinates, and naming a dimension that the array does not have raises an error unless explicitly told to ignore it.",
     "inputs", "all arrays, all ways to name one or several dimensions, all reductions",
     "tests cover each reduction on one or two fixed arrays and axis forms",
     DS + "arrayobj.py", [("axis resolution", "arrayobj.py axis_handler, multiple_axis_handler"), ("reductions", "arrayobj.py _hfarray.sum/mean/std/var/min/max/rss/cumsum/cumprod")])
prop("C04", "Unit and output format travel with the data; copies are independent",
     "Selecting, rearranging, adding a dimension, copying, viewing, negating or re-wrapping an array keeps its unit and output format and the kind of network array it is, while arguments given explicitly win. Copies, arrays built from data (and list, mask and take selections) share no data with their source, views and slices share it, and changing metadata or dimensions of either never changes the other.",
     "inputs histories", "all arrays, operations, units and formats, followed by mutation of either side",
     "tests check a few constructor arguments; none mutates results and looks back at the source",
     DS + "arrayobj.py", [("metadata propagation", "arrayobj.py _hfarray.__new__, __array_finalize__, apply_outputformat, copy, view")])
prop("C05", "Dimensions are immutable values with consistent equality and order",
     "Two dimensions are equal exactly when class, name, coordinates and unit agree, and then hash equal; a dimension also equals its own name. A dimension keeps the coordinates, unit and format it was built with however it was built (lists, nested lists, arrays, a size, another dimension) and whatever later happens to the source or to arrays read from it; the format it gets by itself writes every coordinate as the number it is. Slicing or masking keeps class, name, unit and the selected coordinates, and sorting puts sweeps, repetitions, matrix rows and matrix columns in that order and then by name.",
     "inputs", "all dimension classes, coordinate types (int, float, text, date), units, formats and ways of construction",
     "tests compare fixed pairs built from small integer sizes",
     DS + "dim.py", [("value comparison and hashing", "dim.py DimBase.__eq__, __hash__, __lt__"), ("coordinates stored as tuple", "dim.py DimBase.__init__, data")])
prop("C06", "Reshaping helpers keep every value at its named coordinates",
     "Changing an array to a new list of dimensions, bringing two arrays to common dimensions, adding a dimension, collapsing all trailing dimensions, collapsing all repetition dimensions, expanding diagonal dimensions into pairs, wrapping data as matrices or vectors, and expanding complex numbers to 2x2 real matrices each place every original value at exactly the coordinates the documentation implies, invent none and leave the input unchanged. Collapsed dimensions run with the last collapsed dimension fastest; expanded diagonals are zero off the diagonal. Wrapping data with another number of dimensions than it has axes raises an error.",
     "inputs", "all arrays with any number, order and class of dimensions",
     "tests use zero-filled or 3-element arrays, which cannot show misplaced values",
     DS + "arrayobj.py", [("reshaping helpers", "arrayobj.py change_shape, make_same_dims, add_dim, remove_tail, remove_rep, expand_diagonals, make_matrix, make_vector, make_fullcomplex_array")])
prop("C07", "The variable dictionary is an insertion-ordered mapping in every history",
     "After any sequence of setting (item, attribute, default, update), deleting, popping, clearing, renaming, copying and viewing, keys, values, items, iteration, membership, length and attribute access all describe the same mapping, in insertion order. Overwriting keeps the position, renaming takes the place of the old name (or the existing place of the new name), missing names raise the usual errors, and copies are structurally independent.",
     "histories", "all operation histories on the ordered dictionary",
     "tests run short fixed sequences per method",
     DS + "dataset.py", [("order list kept beside the dict", "dataset.py DataDict")])
prop("C08", "A data block stays consistent through any history of edits",
     "After any sequence of setting variables and dimensions, overwriting coordinates, deleting, renaming, replacing or re-classing dimensions, setting output formats, guessing units, keeping a subset, copying and viewing, every variable still has its values, unit and format, and each of its dimensions equals the block's dimension of that name (name, class, coordinates, unit, format). Names are listed in order of definition, item and attribute access agree, missing names raise errors, the report names every entry, and editing a block never affects a copy of it (nor the structure and metadata of a view).",
     "histories", "all histories of block edits over any variables and dimensions",
     "tests check single operations on one fixed block",
     DS + "dataset.py " + DS + "helper.py", [("block edits", "dataset.py DataBlock.__setitem__, replace_dim, rename, set_outputformat, outputformat, guess_units, copy, view, keep_variables")])
prop("C09", "Filtering and sorting keep exactly the selected points with their values",
     "Filtering a data block by a one-dimensional condition keeps exactly the points where it holds, and by coordinate values exactly the points with those coordinates, in original order; sorting by a dimension or a variable puts the points in ascending order of it. Every variable with that dimension, in whatever position, keeps each value with its coordinates, unit, format and dimension order; other variables, the comments and the source block are unchanged; multi-dimensional conditions are rejected.",
     "inputs", "all blocks, conditions, value sets and sort keys",
     "tests use one fixed block with the dimension first",
     DS + "dataset.py", [("filter and sort", "dataset.py DataBlock.filter, DataBlock.sort")])
prop("C10", "Restructuring a block keeps values at their coordinates",
     "Turning a list of points that forms a full grid (in any point order) into a multi-dimensional block, collapsing repetition dimensions, squeezing, and picking or linearly interpolating along a dimension each give, at every new coordinate combination, the value the original block had there (or the straight-line value between neighbours). Units, comments and other dimensions survive, and asking without interpolation for a coordinate that does not exist, or with interpolation for one beyond the range, is an error.",
     "inputs", "all full-grid blocks in any order, any repetition dimensions in any position, any requested coordinates along any axis",
     "tests use sorted grids and the first axis only",
     DS + "dataset.py", [("restructuring", "dataset.py DataBlock.hyper, remove_rep, squeeze, interpolate, interpolate()")])
prop("C11", "Matrix elements can be read and written by name without touching others",
     "For a matrix variable M, the name Mij (one-digit indices from 1) reads exactly element i,j over the sweep dimensions, and assigning it changes exactly that element and creates no new variable; names that merely resemble elements are independent variables, and elements outside the matrix are errors. Splitting matrices into elements, and splitting a block into dimension-consistent parts, loses no variable and changes no value.",
     "inputs histories", "all matrix names, sizes 1-9, sweep dims and read/write histories",
     "tests read and write a few elements of one 2x2 matrix",
     DS + "dataset.py", [("element names", "dataset.py is_matrix_name, DataBlock.__getitem__, __setitem__"), ("splitting", "dataset.py convert_matrices_to_elements, yield_dim_consistent_datablocks")])
FF = "hftools/file_formats/"
prop("C12", "Reading a Touchstone file gives exactly the network data it describes",
     "For any Touchstone version 1 file with any number of ports, letter case, frequency unit, number format (RI, MA, DB), reference impedance, wrapping of a point over lines, comments, blank lines and line endings, reading gives each frequency in Hz once and in order and each matrix element at its row and column (two-port files column by column, others row by row) converted by the declared format. Noise blocks of two-port files give the noise quantities at their own frequencies, and data with missing or non-numeric numbers raises an error instead of returning data.",
     "inputs", "all Touchstone v1 files with 1-7 ports and any legal layout",
     "tests read a few stored 2-port files",
     FF + "touchstone.py", [("line tokeniser, port count and format conversion", "touchstone.py ReadTouchstoneFileFormat, process_data, proc_data, proc_info")],
     note="an independent Touchstone writer")
prop("C13", "A block saved as Touchstone reads back with the same network data",
     "Saving a block with an N-port S variable over frequency and reading it back gives the same frequencies, matrix values, reference impedance, and comments, for any N and any values, to the precision of the output format (exactly with the default format). The source block is unchanged by saving, and saving twice gives the same file.",
     "inputs", "all N-port blocks, N 1-6, values over many decades, formats, comments",
     "tests round trip one two-port",
     FF + "touchstone.py", [("writer", "touchstone.py save_touchstone"), ("reader", "touchstone.py read_touchstone")],
     note="a round trip")
prop("C14", "CITI files read as written and saved blocks read back the same",
     "Reading a CITI file gives every swept variable with its listed or segment values and every data list (real/imaginary, magnitude, magnitude/angle) as a variable over exactly the swept variables, the last swept variable varying fastest, with matrix elements gathered into one matrix. Saving a block with variables over any subset and order of dimensions and reading it back gives the same values at the same coordinates, and files whose data lists are missing, too short, too long or not numeric raise an error.",
     "inputs", "all CITI files with 1-3 sweeps and 1-6 data lists; all blocks with numeric sweeps",
     "tests read a few stored files with one sweep",
     FF + "citi.py", [("reader", "citi.py ReadCITIFileFormat, handle_data, read_citi"), ("writer", "citi.py format_citi_block, save_citi")],
     note="an independent CITI writer and a round trip")
prop("C15", "Column-text (sp-data) files read as written; saved blocks read back the same",
     "Reading a tab-separated column file gives each column (real, real/imaginary, magnitude/angle, matrix element, repeated, text) as a variable with its unit over its sweep, and blocks of a multi-block file are merged so that each value stands at the coordinates its @variables and row state. Saving a block with 1-3 sweeps, whose variables span all of them in one order or only the first, and reading it back with or without regridding gives the same values, units and coordinates, and rows with a wrong number of columns and blocks swept differently raise an error.",
     "inputs", "all column files with one or many blocks, complete or incomplete grids; all blocks of 1-3 sweeps",
     "tests read stored files and one or two saved blocks",
     FF + "spdata.py " + FF + "readbase.py " + FF + "common.py " + FF + "merge.py", [("column reader and merge", "spdata.py ReadSPFileFormat, readbase.py make_cplx, ReadFileFormat, merge.py merge_blocks"), ("writer", "spdata.py format_sp_block, save_spdata, common.py make_block_iterator")],
     note="an independent writer and a round trip")
prop("C16", "MDIF files read as written and saved blocks read back the same",
     "Reading an MDIF file gives, per block name, every column (real, integer, complex, string, matrix or vector element) as a variable over the sweep and all VARs of the block, each value at its own coordinates, with one- or two-line records, comments and attributes handled. Saving a block over 1-3 sweeps with matrices and reading it back gives the same values and coordinates, and malformed files (missing BEGIN or END, too few columns, unknown types, missing file) raise an error.",
     "inputs", "all MDIF files with 1-3 block names and 1-4 blocks; all blocks of 1-3 sweeps",
     "tests read two stored files",
     FF + "mdif.py " + FF + "merge.py", [("reader", "mdif.py ReadMDIFFileFormat, GetData, simple_merge_blocks"), ("writer", "mdif.py fmt_mdif_block, save_mdif")],
     note="an independent writer and a round trip")
prop("C17", "A block saved as HDF5 reads back the same",
     "Saving any block as HDF5 (format version 0.2 or 0.1, by file name or open handle) and reading it back gives the same variables in the same order with the same values, types, units, output formats and dimensions (name, class, coordinates, unit). The source block is not changed by saving.",
     "inputs", "all blocks of numeric, boolean, text and date variables over any dimensions",
     "tests save a few numeric variables over one sweep",
     FF + "hdf5/v_01.py " + FF + "hdf5/v_02.py", [("writer and reader", "hdf5/v_02.py save_hdf5_handle, getvar, getdim; hdf5/v_01.py save_hdf5, read_hdf5")],
     note="a round trip")
prop("C18", "An expandable HDF5 file holds exactly the saves appended to it, in order",
     "After creating an expandable HDF5 file and any history of appends, reading gives every accepted block in order along the index dimension with all values and coordinates intact. An append whose variables, dimensions or value types do not match the file is refused with an error and leaves the file's contents unchanged.",
     "histories", "all histories of accepted and refused appends",
     "tests append one or two fixed blocks",
     FF + "hdf5/v_02.py", [("append", "hdf5/v_02.py append_hdf5, check_can_append, expand_dataset")],
     note="a model of the history")
prop("C19", "Reading by content and reading many files keeps each file's own data",
     "read_data recognises each file format by its content whatever the file is called and returns the same block as the specific reader. Reading a set of files (pattern, list, list of patterns) gives every file's values and properties under that file's name in natural order, refuses differently swept files, and a cached read gives what the last successful read-in of that file gave, or the current file when nothing is cached or a reread is asked for.",
     "inputs histories", "all formats and names; all sets of files; all histories of cached reads with changing files",
     "tests read stored files under proper extensions",
     FF + "__init__.py " + FF + "readbase.py " + FF + "merge.py", [("detection", "__init__.py read_data, is_touchstone, is_citi, is_mdif"), ("merging", "merge.py merge_blocks, readbase.py ReadFileFormat.read_files"), ("cache", "__init__.py read_to_cache, read_from_cache")],
     note="the specific readers and a model of the cache")
prop("C20", "Reports and tables of a block tell exactly what is in it",
     "The report of a block (also str and repr) names the block and lists every dimension and every variable once, in order, each with its actual size or shape and unit, and every numeric or date dimension with its smallest and largest coordinate in its unit (with an SI prefix), for any width and any report options, side by side or stacked. The comment table has one row with the value per property, sorted by name; the help text of an array names class, type, shape and all dimensions in order; and the x value of a block is the variable or dimension named as x.",
     "inputs", "all blocks, report options and widths; all property sets",
     "tests compare a few fixed reports as text",
     "hftools/dataset/dataset.py hftools/dataset/comments.py", [("report", "dataset.py DataBlock.report, ivar_report, depvar_report, format_table"), ("tables", "comments.py Comments.table, arrayobj.py help")],
     note="the block itself and decimal arithmetic on the shown text")
prop("C21", "Comments keep their text and value; standard names lose no data",
     "Comment lines keep their full text and order; lines of the form name = value, name : value or name [unit] = value give the number scaled by the unit's prefix with its base unit, a date, or the text, and extending, copying or turning them into block variables keeps all of them. Normalising names in a block renames known names to their standard form, keeps every value, unit and dimension, and never overwrites another variable.",
     "inputs", "all comment lists and notations; all blocks with names on and off the table",
     "tests parse a few comment lines",
     FF + "common.py " + DS + "comments.py", [("comment parsing", "dataset/comments.py and file_formats/common.py process_comment, Comments"), ("name table", "common.py normalize_names")])
prop("C22", "Configuration files mean what they say and read back as written",
     "A number with SI prefix and unit, a percentage, ppm or ppb, an interval (days to seconds), a date with time and a time of day in a configuration file give the value they state (a time of day the next such time), wherever they stand. Any content written to a file (nested mappings and lists of text, numbers, values with units, intervals, dates, paths) reads back the same, and reloading shows exactly the current file. In lexical configurations a key is looked up in the nearest enclosing mapping that has it, after any edits; membership, get and item access agree.",
     "inputs histories", "all value notations, all nested contents, all histories of edits, lookups and reloads",
     "the tests read one small file",
     "hftools/file_formats/config.py", [("value constructors and representers", "config.py SIValue, *_constructor, *_representer"), ("scoping", "config.py LexicalScopeDict, LexicalConfig, MergedDicts")],
     note="an independent reading of the notation, a round trip and a scope model")
NW = "hftools/networks/"
prop("C23", "Converting a network between representations keeps its terminal behaviour",
     "Converting a network between Z, Y, S (any number of ports and reference impedance), chain (A), hybrid (H, G) and transmission (T, Tp) form, directly or through any chain of conversions, gives at every point the matrix that allows exactly the same terminal voltages and currents. The result has the requested class, the same sweep dimensions in the same order and the stated reference impedance, and the source is never changed. Elements read and written by name, also of copies and of results of operators, are exactly those entries (selections that are no longer matrices have none), and arrays that are not square, or not two-ports where two-ports are needed, are rejected.",
     "inputs histories", "all networks of 1-4 ports over any sweeps, all pairs of representations and chains of conversions, all real positive reference impedances",
     "tests convert one or two fixed two-ports at 50 Ohm",
     NW + "multiports.py", [("pairwise conversion formulas", "multiports.py xtoy, convert, TwoPortArray"), ("port classes and element names", "multiports.py MultiPortArray, SArray.change_z0")],
     note="the terminal voltages and currents")
prop("C24", "Cascading and de-embedding join and remove two-ports exactly",
     "Cascading any number of two-ports, in any mix of representations and reference impedances and over any sweeps, gives the network seen when each output is joined to the next input, aligned by dimension name. De-embedding a left network, a right network or both from a cascade gives back the network in the middle. Arguments are never changed.",
     "inputs", "all sequences of two-ports over any subsets and orders of shared dims",
     "tests cascade fixed pairs over one sweep",
     NW + "multiports.py " + NW + "spar_functions.py", [("cascade", "multiports.py cascade, deembed; spar_functions.py cascadeS, deembedleft, deembedright, deembed")],
     note="the joined terminal equations")
prop("C25", "Linear algebra on arrays of matrices equals it on every single matrix",
     "Matrix product, inverse, determinant, solving linear equations, least squares, conjugate transpose, building a matrix from elements and switch correction give, at every combination of the other dimensions (aligned by name), exactly the plain result for that one matrix. The result has the union of the other dimensions and the right row and column dimensions, arguments are not changed and matrices whose sizes do not fit are rejected.",
     "inputs", "all arrays of 1-4 x 1-4 matrices and vectors over any subset and order of other dims",
     "tests use square matrices over equal dims",
     "hftools/math.py " + NW + "spar_functions.py " + NW + "noise.py", [("matrix functions", "math.py matrix_multiply, inv, det, solve_Ab, lstsq, make_matrix; noise.py Hconj; spar_functions.py switch_correct")],
     note="plain linear algebra per matrix")
prop("C26", "Noise of a two-port is the same in every representation",
     "A passive two-port at a given temperature has the noise figure its available gain implies for every source, whichever representation it is given in or converted to. A two-port made from noise parameters gives back those parameters, also after any chain of conversions, and converting a noisy two-port transforms its correlation matrix so that the same terminal noise results.",
     "inputs histories", "all passive two-ports, physical noise parameters, temperatures, sources and chains of conversions",
     "tests never check noise values",
     NW + "noise.py " + NW + "multiports.py", [("correlation matrices", "noise.py NoisyTwoport, passive_noise, from_noisepar")],
     note="Friis' formula and the noise figure formula")
prop("C27", "Enforcing passivity or reciprocity changes only offending points",
     "Making S-parameters passive by singular values limits exactly the singular values above one (keeping the singular vectors), by eigenvalues scales exactly the points whose largest eigenvalue magnitude, which the passivity check reports, exceeds one; the limited values end within the requested margin below one and other points stay as they are. Making two-ports reciprocal gives equal transmission both ways at the geometric mean with the phase between the two and leaves the reflections unchanged. Dimensions stay and the source is unchanged.",
     "inputs", "all S-parameters of 1-4 ports with mixed active and passive points; all complex s12, s21 less than 160 degrees apart",
     "tests cover no values of these functions",
     NW + "spar_functions.py", [("passivity and reciprocity", "spar_functions.py make_passive_svd, make_passive_eig, make_reciprocal, check_passive")],
     note="the singular value decomposition")
prop("C28", "Phase, dB, delay, smoothing and interpolation follow their definitions",
     "Phase lies within the requested branch and reproduces the value with its magnitude; dB and its inverse undo each other; unwrapping and the continuous square root change values only by whole turns or sign and leave no jumps; group delay, moving average, polynomial smoothing, linear interpolation and extrapolation equal their defining formula at every point. Labelled arrays keep their dimensions and inputs are not changed.",
     "inputs", "all complex values, branches, grids, apertures, orders and axes",
     "tests sample a few values",
     "hftools/math.py", [("helpers", "math.py angle, dB, dBinv, *_to_complex, unwrap_phase, continous_phase_sqrt, delay, smooth, poly_smooth, linear_extrapolate, interpolate")],
     note="the defining formula")
prop("C29", "SI prefixes scale by their power of ten when parsing and formatting",
     "Every prefix/unit pair has the multiplier of its prefix and its base unit, and unknown units have multiplier one. A number with a unit in any notation (signed, exponent, bare point; attached, separated or bracketed unit) parses to the number times the multiplier and the base unit, and formatting a value with a unit gives text whose number lies in 1..1000 times the prefix and equals the value to the requested digits.",
     "inputs", "all decimal notations, prefixes and units; all magnitudes 1e-24..1e27",
     "tests sample a few numbers per function",
     "hftools/constants/si_units.py", [("parsing and formatting", "si_units.py unit_to_multiplier, string_number_with_unit_to_value, convert_with_unit, format_number, SIFormat")])
prop("C30", "Plots draw exactly the projected values along the right dimension",
     "Plotting an array on any projection (dB, 10 dB, magnitude, squared, radians, degrees, unwrapped phase, real, imaginary, group delay, complex plane, polar, Smith) draws one line per combination of the other dimensions, along the first dimension or along the dimension of the given x array, with exactly the projected values at the x values. The array is not changed, the x axis takes over the unit, and legend, tick, size and page helpers act on exactly the lines, axes and figures they name.",
     "inputs", "all real and complex arrays over 1-3 dims in any order, all projections, with and without x",
     "the tests only check label strings",
     "hftools/plotting/helper.py", [("plot and projection functions", "helper.py HFToolsAxes.plot, _projfun, align_with_x, ComplexPolarAxes.plot"), ("helpers", "helper.py build_figlegend, adjust_axwidth, set_xtick, all_figures, save_all_figures_to_pdf")],
     note="the defining formula of each projection")
prop("C31", "Smith and polar chart grid lines are the curves they stand for",
     "Circles of constant resistance, reactance, conductance and susceptance are drawn exactly on that curve, over exactly the given limits (in either order, finite or infinite). Full and half charts draw the grid values 0, 1/3, 1 and 3 inside the unit circle and only in their half, and impedances and admittances map to their reflection coefficient.",
     "inputs", "all non-negative resistances and conductances, all reactances and susceptances, all limits, all chart kinds",
     "no test covers the charts",
     "hftools/plotting/smith.py", [("circles and grids", "smith.py RCircle, XCircle, GCircle, BCircle, smith_grid, polar_grid, z2gamma, y2gamma")],
     note="the inverse mapping of the drawn points")
prop("C32", "Tick labels with the axis label's prefix show the tick values",
     "On axes of every projection, after any sequence of data, limits, explicit ticks, label formats and units, the number shown at each tick times the prefix shown at the tick or in the axis label equals the tick's value to a thousandth of the prefixed unit (to within a percent of itself where ticks span more than four decades), the prefix fits the largest tick, and the axis label names the unit of the data. Very large, very small, negative and zero values are included.",
     "inputs histories", "all value ranges 1e-24..1e24, tick sets, units and formats",
     "the tests check label strings at one range",
     "hftools/plotting/helper.py", [("tick formatters", "helper.py UnitFormatter, SimpleUnitFormatter, set_xlabel_fmt, set_xlabel_unit")],
     note="parsing the drawn text")
prop("C33", "List and file-name helpers keep every item and order names naturally",
     "Natural ordering of names is a permutation in which digit groups compare as numbers and other text as text; removing duplicates keeps first occurrences in order; numeric conversion gives the value the text denotes or reports an error; chopping zeroes exactly the values under the tolerance; flattening keeps all leaves in order. None of them changes its argument.",
     "inputs", "all lists of names, nested lists, numbers and text",
     "tests sample a few lists",
     "hftools/utils.py", [("helpers", "utils.py lex_order, split_num, stable_uniq, uniq, to_numeric, chop, flatten, glob")])
prop("C34", "Physical constants and the waveguide table are consistent",
     "Every waveguide in the table has the cut-off frequency its width (in mm) implies, its band lies between its own and the next mode's cut-off, and larger guides have lower bands under distinct names. The constants satisfy the physical relations between them.",
     "inputs", "all entries and pairs of entries; all constants",
     "no test covers the table",
     "hftools/constants/waveguide.py hftools/constants/constant_values.py", [("table", "waveguide.py WR"), ("constants", "constant_values.py")],
     note="the relations of rectangular waveguides and of the constants")
prop("C35", "Reading options switch exactly their own step, in every reader",
     "For column-text, CITI, Touchstone and MDIF files, read by their reader or by read_data, each of make_complex, property_to_vars, guess_unit, normalize and make_matrix applies its own step when on and leaves names, values and units as the file states them when off, in every combination: complex pairs joined or kept, value comments made variables or not, units taken from headings and known names or not, standard names and Mean/Std renamed or not, complete sets of matrix elements joined (incomplete ones kept) or not. Text is read in the encoding given.",
     "inputs", "all files with such columns and all combinations of the options",
     "tests use the default options",
     FF + "readbase.py " + FF + "spdata.py " + FF + "citi.py " + FF + "mdif.py " + FF + "touchstone.py", [("steps", "readbase.py ReadFileFormat.do_file, _make_complex, _properties_to_vars, _guess_unit, _normalize, _combine_matrices"), ("entry points", "read_spdata, read_citi, read_touchstone, read_mdif, __init__.py read_data")],
     note="a model that applies the steps one by one")
prop("C36", "Muwave MATLAB files read as written",
     "Reading a MATLAB file of the muwave toolbox, by its reader or by read_data, gives the S matrix (and its covariance) at every frequency and sweep point, every state and every text property at its sweep point, and the reference impedance, with their units; properties empty at all points are left out unless asked for. Several files with one point each give all points in the natural order of the file names. Files with differing frequencies and other MATLAB files raise an error.",
     "inputs", "all numbers of points, frequencies and ports, all states and text properties",
     "no test covers this reader",
     FF + "muwave_mat.py " + FF + "merge.py", [("reader", "muwave_mat.py build_meas_state, build_measmnt, build_data, read_single_muwave_matlabdata, read_muwave_matlabdata")],
     note="the content written with scipy.io.savemat")
prop("C37", "Python's own copy and pickle modules keep everything whole",
     "Passing a dimension, an array, a network array, a variable dictionary or a data block through copy.copy, copy.deepcopy or pickle (any protocol) gives an object of the same class with the same values, types, dimensions, units, formats, order, reference impedance, element names, comments and block name. A deep copy or unpickled object is independent: changing it never changes the original.",
     "inputs", "all such objects, all ways of copying",
     "no test pickles anything",
     DS + "arrayobj.py " + DS + "dataset.py " + DS + "dim.py hftools/networks/multiports.py", [("state beside the numbers", "arrayobj.py _hfarray.__array_finalize__, __reduce__, __setstate__; multiports.py _MultiPortArray"), ("dictionaries and blocks", "dataset.py DataDict, DataBlock.__getattr__")])
prop("C38", "Blocks derived from one another keep their own labels",
     "Deriving a block from a block (copy, view, filter, sort, squeeze, keep_variables, hyper, interpolate, remove_rep, convert_matrices_to_elements, subsets by dimensions) never changes the source. Afterwards each of them has its own names and labels: renaming or replacing dimensions, changing units or output formats, guessing units, adding, renaming or deleting variables and naming the block in one of them never changes the names, dimensions, coordinates, units, formats or values of the others, in any history of such steps.",
     "histories", "all blocks, all histories of derivations and edits",
     "tests look at the derived block only, never at the source after editing the result",
     DS + "dataset.py " + DS + "arrayobj.py", [("derivations", "dataset.py DataBlock.copy, view, filter, sort, squeeze, keep_variables, hyper, interpolate, remove_rep; convert_matrices_to_elements, subset_datablock_by_dims"), ("edits", "dataset.py DataBlock.rename, replace_dim, set_outputformat, outputformat, guess_units; change_dim")])
