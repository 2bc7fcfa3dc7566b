"""The properties, in one place; tools/gen.py writes properties.jsonl and MANIFEST.json from here.
Fields: id, title, statement, over, qtext, why, files, mech, technique|na, note"""
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na))


prop('C01', 'HDF5/MAT storage keeps the numeric type of every value',
     'Whatever numeric array, list, multi-dimensional array or scalar attribute is written to an HDF5 or MAT file as signed/unsigned 32/64-bit integer or double is stored with a file type that represents every value of that type, and transferred with a memory type equal to the caller\'s element type. Each typed reader transfers into a buffer of exactly the element type it returns, and the type reported for a stored variable is the type it was written with.',
     ['inputs', 'programs'], 'every element type, every value of it, every writer/reader pair',
     'The tests write and read small positive values of a few types; a wrong width or signedness only shows for values outside the common range.',
     ['src/SFile/SFile_HDF5.cpp', 'src/SFile/SFile_MAT.HDF5.cpp', 'include/softlib/SFile_HDF5.h'],
     [('H5 PredType arguments of createDataSet/write/read', 'src/SFile/SFile_HDF5.cpp'), ('GetDataType', 'src/SFile/SFile_HDF5.cpp')],
     'type-table agreement by abstract interpretation of inlined LLVM IR views',
     'Decides, for every typed entry point, which HDF5 file/memory types reach the library calls and whether they fit the C element type; assumes the HDF5 library converts as documented.')
prop('C02', 'HDF5/MAT arrays keep their shape and row-major element order',
     'An array written to an HDF5 or MAT file with given dimensions is stored with exactly those dimensions in that order, a list is stored with its length, and every reader reports the stored dimensions back in the same order. A reader of two-dimensional data returns row pointers spaced by the number of columns over a block of rows times columns elements.',
     ['inputs'], 'every rows/columns combination (square, tall, wide, single row/column) and every number of dimensions',
     'Tests use a few fixed shapes; transposition and stride slips vanish for square or single-row data.',
     ['src/SFile/SFile_HDF5.cpp', 'src/SFile/SFile_MAT.HDF5.cpp', 'include/softlib/SFile_HDF5.h'],
     [('DataSpace extents; getSimpleExtentDims', 'src/SFile/SFile_HDF5.cpp')],
     'symbolic-address value flow over inlined LLVM IR views',
     'Decides the extents handed to/from HDF5 and the affine row-pointer layout; element transfer itself is the HDF5 library\'s.')
prop('C03', 'Every variable in a MAT file carries the MATLAB class of its data',
     'Every dataset an application writes to a MAT file, through any of the array, list, multi-dimensional, scalar or string writers, carries the class tag by which Matlab recognises its element type (double, int32, int64, uint32, uint64, char), and a string also carries the integer-decode tag and is stored as 16-bit characters. Writing never fails because of the tag itself.',
     ['inputs', 'programs'], 'every writer of the MAT interface, including those inherited from the generic HDF5 writer',
     'The tests read files back with softlib, which ignores the tags; only Matlab would notice, and only for the writer used.',
     ['src/SFile/SFile_MAT.HDF5.cpp'],
     [('MATLAB_class attribute', 'src/SFile/SFile_MAT.HDF5.cpp')],
     'must-reach and constant-tag analysis on per-class views',
     'Decides that every normal path through each MAT writer reaches an attribute write with the matching class constant.')
prop('C04', 'Generic numeric reads work for every stored element type',
     'Reading a variable through the type-independent accessors (2-D integer arrays, integer lists, single integers and integer arrays as 32/64-bit, signed or unsigned) succeeds for each of the stored numeric element types and converts element by element from the representation the data was stored in, at the same position. A list reader accepts only a single row or column and a single-value reader only one element; a variable of any other type is refused with an exception, never reinterpreted.',
     ['inputs', 'programs'], 'every pair of stored type and requested type, every shape',
     'The type product has dozens of entries; the tests exercise a handful.',
     ['src/SFile/SFile.cpp', 'include/softlib/SFile.h'],
     [('dispatch on the stored data type', 'src/SFile/SFile.cpp')],
     'exhaustive case-split of the type enumeration on inlined IR views',
     'For each enumerator the set of reachable typed readers is computed and compared with the enumerator\'s type; out-of-range values must only reach a throw.')
prop('C05', 'Arrays returned by file readers belong to the caller alone',
     'Every array handed out by a reader of any file format is freshly allocated by that call and not kept by the file object, so the caller may modify and release it (data block and row table separately, with array delete) and read the same variable again. Reading the same variable twice gives two independent arrays.',
     ['histories', 'inputs'], 'every sequence of reads, releases and re-reads of the same variable',
     'Tests read each variable once and mostly do not release the result.',
     ['src/SFile/SFile_SDT.cpp', 'src/SFile/SFile_HDF5.cpp', 'src/SFile/SFile_MAT.HDF5.cpp', 'src/SFile/SFile.cpp'],
     [('operator new[] in each reader', 'src/SFile')],
     'escape/ownership analysis (allocation-site value flow) on inlined IR views',
     'Decides that returned pointers originate in new[] of the same call and do not escape into the file object; single ownership after return is by construction.')
prop('C06', 'SDT text files reproduce what was written',
     'Numbers written to an SDT text file carry enough digits to restore the same double, and the header of every matrix names the variable and gives rows before columns, matching the order in which the reader consumes them. Values are written and read row by row in the same element order. A string comes back character for character.',
     ['inputs'], 'every finite double and every matrix shape',
     'The tests compare with a tolerance and with nearly round values, so lost digits or swapped extents of square data go unnoticed.',
     ['src/SFile/SFile_SDT.cpp', 'src/SFile/SFile_SDT.load.cpp', 'include/softlib/SFile_SDT.h'],
     [('stream precision, writer/parser layout', 'src/SFile/SFile_SDT*.cpp')],
     'stream-effect sequence analysis on inlined IR views',
     'Decides precision set before numbers are inserted and order of header fields in writer and parser.')
prop('C07', 'File failures surface as exceptions',
     'Opening a file that cannot be opened, asking for a variable or attribute that does not exist, or asking for a file type that is not supported raises a library exception in every file format. No such request returns normally with made-up or empty data, and no exception of an underlying library escapes instead.',
     ['fault_sequences', 'inputs'], 'every missing file, missing variable, missing attribute, unsupported type, in each format and access mode',
     'Tests only open files that exist and read variables that are there.',
     ['src/SFile/SFile.cpp', 'src/SFile/SFile_HDF5.cpp', 'src/SFile/SFile_MAT.HDF5.cpp', 'src/SFile/SFile_SDT.cpp', 'src/SFile/SFile_SDT.load.cpp'],
     [('catch clauses and failure tests of every accessor', 'src/SFile')],
     'exception-flow (catch coverage) and must-check analysis on inlined IR views',
     'Decides that every HDF5 call that can fail is covered by a handler that converts to a library exception, and that file-state/lookup failures lead to a throw.')
prop('C08', 'A setting that claims a type can be read as that type',
     'For every text of a setting in a configuration script, the type query for boolean, integer (32/64-bit, signed or unsigned), real number or numeric vector says yes exactly when the corresponding read returns the value(s) written, in range and without an exception; a text with trailing garbage, an out-of-range value or a wrong sign is never accepted, nor is a list where a single value is asked for. A type query of an existing value never throws.',
     ['inputs'], 'every setting text',
     'Tests query a few well-formed numbers.',
     ['src/Configuration/Script/SettingScript.cpp', 'src/Configuration/Setting.cpp'],
     [('Is*/Get* pairs', 'src/Configuration/Script/SettingScript.cpp')],
     'sibling agreement of conversion, range-guard and exception coverage on inlined IR views',
     'Decides conversion function, consumed-length test, range test and handler coverage of each query against its reader; the C++ library conversion functions are trusted.')
prop('C09', 'Every syntax error in a configuration is reported',
     'A configuration text that violates the grammar (unexpected token, missing terminator, mismatched or unclosed block, text ending inside a statement, string or include directive) is always reported: the configuration is flagged as erroneous or a library exception is raised. Neither lexer nor interpreter drops text other than separators, white space and comments silently. A configuration file or included file that cannot be opened is reported as well.',
     ['inputs'], 'every configuration text',
     'The tests parse a valid configuration.',
     ['src/Configuration/Script/Interpreter.cpp', 'src/Configuration/Script/Lexer.cpp', 'src/Configuration/Configuration.cpp'],
     [('error flag set by the error reporters', 'src/Configuration')],
     'path-product (typestate) dataflow of the inlined parser with the token grammar and the lexer state',
     'Decides for all token sequences which ones the interpreter lets pass with the flag unset, and for all characters that the lexer keeps their text; the content of string comparisons is opaque.')
prop('C10', 'Configuration copies are independent of their originals',
     'Copying a configuration, a configuration block or a setting, or merging one block into another, yields settings and sub-blocks that share no object with the source, and leaves the source unchanged. A copied setting of either kind keeps its name, its kind and all its values in order; a copied block has the same types, names, settings and sub-blocks in the same order; copied sub-blocks refer to the copy as their parent. Overwriting the values of a setting replaces all of them by a copy of those given. Destroying a block or setting releases exactly what it owns, each object once.',
     ['histories', 'inputs'], 'every nesting of blocks, every kind and number of values and every order of copy, merge, change and destruction',
     'Tests never destroy or change a source while its copy is in use, and never copy settings read from data files.',
     ['src/Configuration/ConfigBlock.cpp', 'src/Configuration/Configuration.cpp', 'src/Configuration/Script/SettingScript.cpp', 'src/Configuration/SFile/SettingSFile.cpp'],
     [('copy constructors, Copy, Merge, OverwriteValues, destructors', 'src/Configuration')],
     'interprocedural ownership dataflow over heaps of symbolic objects (LLVM IR)',
     'Decides, on small trees, which objects each operation reaches, creates and releases.')
prop('C11', 'Configuration parsing always terminates inside its input',
     'For every configuration text, including an empty one and one ending inside a comment, string, block or directive, the lexer and interpreter stop at the end of input: no token beyond the end marker and no character beyond the end is consulted, and every loop consumes input or stops.',
     ['inputs'], 'every text, in particular every truncation point',
     'Tests parse complete files only.',
     ['src/Configuration/Script/Lexer.cpp', 'src/Configuration/Script/Interpreter.cpp'],
     [('end-of-file token and stream tests', 'src/Configuration/Script')],
     'path-product dataflow with end-of-input facts; progress of every cycle of the product graph',
     'Decides that every read is below the end and every cycle consumes input; assumes the token list ends with the end marker, which the lexer appends last.')
prop('C12', 'Interpolated fields and distributions answer every query point',
     'Evaluating a numeric magnetic field, its derivatives, its flux or a numeric distribution function at any point, including points outside the tabulated grid, returns a value or raises a library exception; the interpolation library is only ever asked for points inside its grid, in both coordinates. Inside the grid the interpolated point is the query point itself (with the pitch reversed exactly when that was requested); outside, a field takes its value at the nearest coordinates of the grid and a momentum-space distribution is zero.',
     ['inputs'], 'every query point and every grid',
     'The interpolation library aborts the process for points outside; tests draw points inside the grid.',
     ['src/MagneticField/MagneticFieldNumeric2D.cpp', 'src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp', 'src/DistributionFunction/CODEDistributionFunction.cpp'],
     [('clamping before gsl evaluations', 'src/MagneticField/MagneticFieldNumeric2D.cpp')],
     'finite-ordering abstract interpretation of guards before interpolation calls',
     'For every region of the query against the grid limits decides which value reaches the interpolation call, with member values derived from the initialiser; assumes grids are sorted. NaN queries are not considered.')
prop('C13', 'Equivalent overloads forward coordinates unchanged',
     'Evaluating a field, its gradient, flux, magnetic axis, domain test or distribution function through a shorthand overload (components, vector, array, with or without drift shift or prefactor) gives what the full form gives for the same coordinates in the same order. No component is dropped, duplicated or swapped.',
     ['inputs'], 'every overload family and every coordinate value',
     'Tests use one overload per family.',
     ['src/MagneticField/MagneticField2D.cpp', 'src/MagneticField/MagneticFieldNumeric2D.cpp', 'src/DistributionFunction', 'include/softlib/DistributionFunction'],
     [('forwarding overloads', 'src/MagneticField/MagneticField2D.cpp')],
     'argument value-flow through forwarding calls on IR views',
     'Decides which component reaches which parameter of the full form.')
prop('C14', 'Clones behave like their originals',
     'The per-thread clone of any magnetic field, distribution function or radial profile carries every piece of state that evaluation of the original depends on, so evaluating the clone gives what the original gives. No setting (extrapolation, logarithmic storage, interpolation method, limits, time step, drift) is reset to a default by cloning.',
     ['histories', 'configurations'], 'every configuration of an object before cloning and every later evaluation',
     'Tests clone default-configured objects or none.',
     ['src/DistributionFunction', 'src/MagneticField'],
     [('Clone/MinClone methods', 'src/DistributionFunction')],
     'field read-set/transfer-set dataflow between evaluation and clone views',
     'Decides for every class that every data member read during evaluation is transferred (value flow from the source member) or rebuilt from transferred members.')
prop('C15', 'Clones share no mutable evaluation state',
     'A clone of a magnetic field or distribution function never shares with its original any object that evaluation modifies (result buffers, interpolation accelerators, scratch arrays), so original and clones can be evaluated from different threads at the same time.',
     ['schedules'], 'every interleaving of evaluations on an object and its clones',
     'Tests are single-threaded.',
     ['src/DistributionFunction', 'src/MagneticField'],
     [('Clone/MinClone methods', 'src/DistributionFunction')],
     'may-write set versus shared-pointer set on inlined IR views',
     'Decides that members whose pointee is written during evaluation are freshly allocated in the clone.')
prop('C16', 'Input tables of inconsistent shape are refused',
     'When a magnetic equilibrium or distribution function is loaded from file, every table is checked against the lengths of the coordinate grids it is defined on before it is used, and a mismatch raises a library exception. With consistent, non-empty tables no element outside them is ever read, and the lengths and slices handed on for interpolation lie inside them.',
     ['inputs'], 'every combination of table and grid sizes in an input file',
     'Tests load consistent files only.',
     ['src/MagneticField/MagneticFieldNumeric2D.cpp', 'src/MagneticField/MagneticFieldLUKE.cpp', 'src/DistributionFunction'],
     [('extent comparisons after each read', 'src/MagneticField, src/DistributionFunction')],
     'abstract interpretation of each loader against a model of the input file (present tables and their extents), with enumeration of the loop iterations admitted by dominating conditions',
     'One representative set of sizes per loader, every single-table deviation from it in each axis and orientation; contents of tables are arbitrary.')
prop('C17', 'A saved magnetic equilibrium can be loaded back unchanged',
     'Everything the numeric magnetic field needs on loading (name, description, magnetic axis, both grids, the three field components) is written on saving, under the names of the file format, with extents that match the grids and with the data of the member of the same meaning; flux, separatrix and wall are written when and only when the field has them. Loading puts element (z, r) of each table, stored with either dimension first, at grid point (r, z) of the member of that meaning over the whole grid, takes both outlines with all their points and each coordinate in its place, uses the wall as domain when there is one and the separatrix otherwise, and knows of a flux exactly when the file has one. Files lacking a required part, or with a verification vector that does not match its component, are refused. A field given as arrays keeps each of them as the member of its meaning, with the same choice of domain.',
     ['inputs', 'histories'], 'every equilibrium and every file format',
     'No test saves a field.',
     ['src/MagneticField/MagneticFieldNumeric2D.cpp'],
     [('Save/Load', 'src/MagneticField/MagneticFieldNumeric2D.cpp')],
     'abstract interpretation of writer and reader against a symbolic file model (present tables and their extents)',
     'Decides names, members, extents, element order and trip counts for every combination of optional parts; file back ends are covered by other properties.')
prop('C18', 'Domain limits always describe the current domain',
     'The domain limits reported by a magnetic field are those of the boundary currently in force: after a new boundary is set, the next query of the bounds (GetDomainBounds) or of the radial limits (GetMaxRadius, GetMinRadius) reflects it. The bounds are the minimum and maximum of R and Z over all boundary points and the magnetic axis. The radial limits are the smallest and largest of all radii where the closed boundary crosses the level of the magnetic axis, and the vertical limits (FindMaxZ, FindMaxMin) the smallest and largest of all crossings of the given coordinate, each crossing being interpolated linearly on its segment.',
     ['histories'], 'every sequence of boundary changes and queries',
     'Tests set the boundary once.',
     ['src/MagneticField/MagneticField2D.cpp'],
     [('bounds cache flag', 'src/MagneticField/MagneticField2D.cpp')],
     'cache-invalidation (typestate) dataflow, and abstract interpretation of one loop iteration from every order of its operands, on inlined IR views',
     'Decides that every writer of the boundary leaves the cache invalid, and that the scans cover every point and keep the extremes. The order of segments and rounding are not modelled.')
prop('C19', 'Radial profiles vanish outside their interval and reject bad limits',
     'Every bounded radial profile (linear, power, Bessel, Gaussian) returns exactly zero for radii below its inner or above its outer limit, takes its documented shape between the limits (the inner limit included), treats the drift-shifted radius as the radius, and cannot be constructed with an outer limit equal to or below the inner one.',
     ['inputs'], 'every radius, drift shift, pair of limits and shape parameter',
     'No test covers the profiles.',
     ['src/DistributionFunction/LinearRadialProfile.cpp', 'src/DistributionFunction/PowerRadialProfile.cpp', 'src/DistributionFunction/BesselRadialProfile.cpp', 'src/DistributionFunction/GaussianRadialProfile.cpp'],
     [('range test in Eval, check in constructor', 'src/DistributionFunction/*RadialProfile.cpp')],
     'abstract interpretation by case of the order of radius and limits, formula identity by algebraic normal form',
     'Every ordering of the shifted radius against the limits is a case decided by the sign of polynomials; the value at the outer limit itself is not constrained. Floating-point rounding is not modelled.')
prop('C20', 'Logarithmic tables are exponentiated exactly when stored as logarithms',
     'A numeric distribution built from logarithmic data returns the exponential of the interpolated value, one built from plain data returns the interpolated value itself, and the flag that decides this is set by every initialisation path in agreement with what was stored. Data is taken to logarithms exactly once.',
     ['histories', 'configurations'], 'every initialisation path and every later evaluation',
     'Only the plain path is compared in tests.',
     ['src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp', 'src/DistributionFunction/NumericDistributionFunction.cpp', 'src/DistributionFunction/SOFTDistributionFunction.cpp'],
     [('logarithmic flag', 'src/DistributionFunction')],
     'flag/transform pairing by abstract interpretation',
     'Decides flag value, stored transform and evaluation transform per initialisation entry point.')
prop('C21', 'User-selected indices are validated before use',
     'A time step or radius index selected by the caller when loading a distribution function is compared with the extent of the data before it is used to address it, with negative time steps counted from the end, and an invalid selection raises a library exception. A valid selection loads exactly the data of that time step or radius.',
     ['inputs'], 'every selected index, including the boundary values',
     'Tests select valid indices only.',
     ['src/DistributionFunction/CODEDistributionFunction.cpp', 'src/DistributionFunction/GOCODEDistributionFunction.cpp', 'src/DistributionFunction/DREAMDistributionFunction.cpp', 'src/DistributionFunction/LUKEDistributionFunction.cpp', 'src/DistributionFunction/SOFTDistributionFunction.cpp', 'src/DistributionFunction/deprSOFTDistributionFunction.cpp'],
     [('range tests', 'src/DistributionFunction')],
     'abstract interpretation of each loader against a model of the input file, for every position of the index relative to the extents',
     'Enumerates the index around both bounds for one representative set of sizes and decides refusal or the slice used.')
prop('C22', 'The Runge-Kutta step is a consistent fifth-order embedded pair',
     'One step of the Dormand-Prince integrator advances the solution by a method whose coefficients satisfy all fifth-order Runge-Kutta conditions, its error estimate is, up to its sign, the difference to the embedded fourth-order method of that pair, and the last stage is the derivative at the new point. Stage times agree with the stage weights.',
     ['inputs', 'programs'], 'every equation, dimension, step size and initial value',
     'A slightly wrong coefficient still integrates the test problem within tolerance, only less efficiently or accurately.',
     ['include/softlib/RKDP45.h', 'include/softlib/Integrator/RKDP45.tcc'],
     [('tableau and stage combinations', 'include/softlib/Integrator/RKDP45.tcc')],
     'extraction of the Butcher tableau as linear forms from IR and exact order-condition check',
     'Decides the 17 fifth-order and 8 embedded fourth-order conditions to 1e-11 on the coefficients as compiled, for 1-3 dimensions and six regions of the arguments.')
prop('C23', 'Only accepted steps advance the integrator',
     'A step whose error estimate exceeds the tolerance or is not a number is repeated with a smaller step and never stored; the stored time is the previous time plus the step actually used and the stored solution and derivative are those computed with that step. The controller keeps the step-size factor within its limits, does not enlarge the step right after a rejection but does when the error is far below the tolerance otherwise, and gives up with an exception when the step underflows.',
     ['inputs', 'histories'], 'every error history',
     'The test problem sees few rejections and no NaN.',
     ['include/softlib/Integrator/RungeKutta.tcc', 'include/softlib/Integrator/Integrator.tcc'],
     [('UpdateTimestep, Step, StoreSolution', 'include/softlib/Integrator')],
     'product dataflow of the step controller around an unknown method, on finite histories of its error estimate; value flow of everything stored',
     'Follows 12 histories of accepted, rejected, undefined and vanishing errors (up to 7 calls) and 2 that never end, for 1-3 dimensions and two sets of limits; growth of the storage beyond its first block is not followed.')
prop('C24', 'Dense output interpolates inside the stored interval only',
     'Dense output at a requested time uses the coefficients of the stored step that contains it, reproduces the stored solution and its derivative at both ends of every step, is of fourth order in between, and does so in whatever order the times are given. Times beyond the last or before the first stored step, and requests without any dense output, are refused with an exception. Coefficient storage is enlarged before it is written and indexed by the step.',
     ['inputs', 'histories'], 'every set of requested times and every number of steps',
     'Tests request times inside the integrated interval.',
     ['include/softlib/Integrator/RKDP45.tcc', 'include/softlib/Integrator/Integrator.tcc'],
     [('OutputDense/PrepareDense', 'include/softlib/Integrator/RKDP45.tcc')],
     'product dataflow of integration and dense output on an unknown equation: the result as a formula in the requested time, compared with the stored step; order conditions of the interpolant; refusals',
     'Follows up to three steps and three requested times in every position relative to them, for 1-3 dimensions; end-point identities and the 8 fourth-order conditions are checked on the extracted formulas.')
prop('C25', 'Vector arithmetic is element-wise exact',
     'Every vector operation (sums, differences, scaling, division, negation, assignment, dot and cross product, norm, normalisation, copies) computes for every dimension the textbook result for each element, leaves its operands unchanged unless it is an assignment, and tolerates the result being one of its operands.',
     ['inputs', 'programs'], 'every dimension and all element values, including aliased operands',
     'There is no vector test in the stable suite; templates are only compiled where used.',
     ['include/softlib/Vector.h', 'include/softlib/General/Vector.tcc'],
     [('operator templates', 'include/softlib/General/Vector.tcc')],
     'value-graph normalisation of fully unrolled instantiations against reference polynomials',
     'Exact polynomial identity for dimensions 1-4; larger dimensions share the same template text.')
prop('C26', 'Matrix arithmetic is exact for every shape',
     'Every matrix operation compiles for every shape it is declared for and computes the textbook result: element-wise sums, differences and scalings, matrix-matrix and matrix-vector products from either side, outer products and element access; operands are unchanged unless the operation is an assignment.',
     ['inputs', 'programs'], 'every shape (square and rectangular) and all element values',
     'No test instantiates the matrix type; several operators are never compiled.',
     ['include/softlib/Matrix.h', 'include/softlib/General/Matrix.tcc'],
     [('operator templates', 'include/softlib/General/Matrix.tcc')],
     'compile witnesses plus value-graph normalisation against reference polynomials',
     'Exact polynomial identity for the instantiated shapes.')
prop('C27', 'The library has no shared mutable state',
     'Independent objects of the library can be used from different threads without synchronisation: no function of the library other than progress reporting writes to storage shared between objects (global, static or function-static variables), and none calls a library routine that keeps hidden static state on an evaluation path.',
     ['schedules', 'programs'], 'every interleaving of calls on distinct objects',
     'Tests are single-threaded.',
     ['src', 'include/softlib'],
     [('absence of writable statics', 'src')],
     'whole-program effect analysis on IR (writable globals and who writes them)',
     'Enumerates every writable global defined by the library and every store that can reach one.')
prop('C28', 'Error messages are built safely from their arguments',
     'Every exception and progress message consumes exactly the arguments given, each with a conversion of matching type, and no run-time text (file name, variable name, setting) is ever interpreted as a format. The formatted message is complete and the exception owns no leaked buffer.',
     ['inputs', 'fault_sequences'], 'every error path with every text',
     'Error paths are not exercised by the tests, and a mismatch is undefined behaviour that may go unnoticed.',
     ['include/softlib/SOFTLibException.h', 'src/General/SOFTLibException.cpp', 'include/softlib/SFileException.h', 'include/softlib/ConfigurationException.h'],
     [('printf-style exception constructors', 'include/softlib/SOFTLibException.h')],
     'format/argument type agreement over all resolved constructor instantiations',
     'Enumerates every construction site in the library, its constant format and its argument types.')
prop('C29', 'Objects release only what they own and initialised',
     'Destroying any object of the library, in any state reachable by its constructors (also one that threw or was never loaded), releases each resource at most once, with the routine matching its acquisition, and never touches an uninitialised pointer.',
     ['histories', 'fault_sequences'], 'every construction path followed by destruction',
     'Tests mostly leak or construct fully loaded objects.',
     ['src', 'include/softlib'],
     [('constructors and destructors', 'src')],
     'definite-initialisation and release-pairing dataflow on constructor/destructor views',
     'Decides that each member released by a destructor is definitely assigned by every constructor and that allocation and release families match.',
     na='not claimed: releases are decided only where another property needs them (copies in C14, configuration settings in C09-C11); a library-wide ownership analysis was not built, and several classes (numeric and LUKE fields, SFile readers on failure) leak, which this statement allows but leaves little to decide')
prop('C30', 'Images are written with the right orientation, size and colours',
     'Both image writers (PPM and PNG) write element (i, j) of a row-major nrows x ncols array as the pixel in column i of row j of a picture that is nrows wide and ncols high, red, green and blue in this order and 8 bits deep. A value is coloured by linear interpolation between the neighbouring colours of the colour map on [vmin, vmax]; values below the range get its first colour, values above it the last, and an undefined value some colour of the map: no value, however large, small or undefined, reaches outside of the colour table. The requested format and colour map are the ones used (none given: the default one), an unknown one is rejected by an exception, and a file that cannot be created is reported by an exception.',
     ['inputs'], 'every image shape, colour map and pixel value',
     'No image test exists.',
     ['src/ImageGenerator/ImageGeneratorPNG.cpp', 'src/ImageGenerator/ImageGeneratorPPM.cpp', 'src/ImageGenerator/ImageGenerator.cpp', 'include/softlib/ImageGenerator/ImageColormap.h', 'include/softlib/ImageGenerator/ImageGenerator.h'],
     [('generator loops and colour map', 'src/ImageGenerator')],
     'output-stream typestate, symbolic-address value flow and region-wise evaluation of extracted formulas on IR views',
     'Decides pixel addressing, channel order, picture size, interpolation and clamping per region of the value, dispatch, and the failed-open path; libpng itself is trusted.')
prop('C31', 'Progress accounting is exact and atomic',
     'Progress notifications may come from several threads: all of the tracker\'s state that notifications change (next point, its number, timers and estimates) is read and changed only inside one critical section, so no progress point is lost, reported twice or reported under another\'s number however threads interleave. The requested number of points is spread evenly over the total (spacing differs by at most one, the last point is the total), a point is reported exactly when the work reaches it, and a duration is split into days, hours, minutes, seconds and milliseconds that add up to it.',
     ['schedules', 'inputs'], 'every interleaving of progress notifications, every total and number of points, every duration',
     'Tests never call it.',
     ['src/General/ProgressTracker.cpp', 'include/softlib/ProgressTracker.h'],
     [('OpenMP critical section, UpdateNext, TimeString', 'src/General/ProgressTracker.cpp')],
     'lock-set dataflow on IR views compiled with OpenMP; inductive invariant of the point sequence by algebraic case analysis',
     'Decides that every access to state changed by notifications holds the same critical lock; the point sequence is proved by induction over the report number for every relation of total to number of points; the split of durations is compared at the unit boundaries.')
prop('C32', 'Field derivatives are the derivatives of the field',
     'At every point off the symmetry axis and inside the domain, the gradient, curl, Jacobian, magnitude and flux derivatives a magnetic field returns are those of the field vector and flux it returns there, the analytical r dq/dr is that of the safety factor for every profile type, the field is axisymmetric, and each interpolated component comes from the table of that component.',
     ['inputs', 'configurations'], 'every point, sign convention, safety-factor type and table',
     'Tests compare a few points with stored values for q = constant.',
     ['src/MagneticField/MagneticFieldAnalytical2D.cpp', 'src/MagneticField/MagneticFieldAnalytical2D.q.cpp', 'src/MagneticField/MagneticFieldNumeric2D.cpp'],
     [('EvalDerivatives, EvalFluxDerivatives, __GetrDqDr, __EvalJacobian', 'src/MagneticField')],
     'symbolic differentiation of formulas extracted by abstract interpretation, identity by algebraic normal form',
     'Formulas are compared as real functions on each region separated by branches (rounding, overflow and the excluded point r = 0 are not modelled); regions are those containing a fixed set of representative points; identities whose normal form exceeds a budget are decided by agreement at generic points to many digits.')
prop('C33', 'Tabulated distributions are linear between neighbouring radii',
     'A distribution tabulated on radii returns, at any radius, the value of the straight line through the two neighbouring radii and their own momentum-space tables, evaluated at the momentum and pitch asked for; on a radius it returns that radius\'s table, with a single radius that table everywhere, and outside the grid the line through the two outermost radii if extrapolation is permitted and an exception otherwise. Initialisation and insertion keep every radius with its own table and grids, in order, with the limits of the grid, refuse grids that are neither increasing nor decreasing, and forget earlier data.',
     ['inputs', 'histories'], 'every radial grid (one radius, decreasing), query radius, drift shift and order of insertion',
     'Tests use one increasing grid and interior points.',
     ['src/DistributionFunction/NumericDistributionFunction.cpp', 'src/DistributionFunction/GOCODEDistributionFunction.cpp'],
     [('Eval, __FindNearestR, Initialize, InsertMomentumSpaceDistribution', 'src/DistributionFunction/NumericDistributionFunction.cpp')],
     'abstract interpretation over formulas of the table elements, for every order type of query and grid up to five radii',
     'Grids of one to five radii, every position of the query relative to the radii; values compared as real functions of the table elements (rounding not modelled).')
prop('C34', 'A Legendre-mode distribution is the sum of its modes',
     'Evaluating a distribution given by Legendre modes returns, at every momentum on its grid and every pitch, the sum over its modes of mode value times (-1)^l P_l(xi), or zero where that sum is negative or the momentum off the grid, whatever was evaluated before; each mode is interpolated from its own coefficients with the selected method; and converting it to a momentum-pitch table gives that same sum at every node of the pitch grid, which runs from -1 to 1.',
     ['inputs', 'histories'], 'every number of modes, momentum, pitch and preceding evaluation or conversion',
     'Tests compare one file at one time.',
     ['src/DistributionFunction/CODEDistributionFunction.cpp'],
     [('ComputeLegendrePolynomials, Eval, ToMomentumSpace, InitInterpolation', 'src/DistributionFunction/CODEDistributionFunction.cpp')],
     'abstract interpretation over formulas of the mode coefficients, identity with the Legendre series by algebraic normal form',
     'Up to five modes and small grids; values compared as real functions of the coefficients (rounding not modelled).')
prop('C35', 'The domain test reports exactly the segments that meet the boundary',
     'A segment between two points (the magnetic axis and a point, if only one is given), seen in the poloidal plane of cylindrical radius and height and taken as straight there, is reported to leave the domain exactly when it has a point in common with one of the edges between consecutive boundary points; ending or starting on an edge or a corner counts, being parallel to an edge without touching any does not. (Segments that run along an edge are not covered.)',
     ['inputs'], 'every boundary and every segment, in any toroidal direction',
     'Tests use a handful of points of one circular boundary.',
     ['src/MagneticField/MagneticField2D.cpp'],
     [('CrossesDomain', 'src/MagneticField/MagneticField2D.cpp')],
     'abstract interpretation over formulas of the coordinates; comparisons identified with the signs of the intersection parameters',
     'Boundaries of one to five edges, with every kind of position of a segment relative to each edge; comparisons are exact (rounding not modelled). For one edge the comparisons are shown to be those of the intersection parameters, so their outcome is right for every edge and segment.')
prop('C36', 'Analytical field and closed-form distributions equal their documented formulas',
     'The analytical field is B0*Rm/R times the unit toroidal vector plus the poloidal field r/(q*Rm) times that, with the sign of the toroidal field and of the plasma current as given to the constructor, at every point (on the magnetic axis it is purely toroidal), with the safety factor of the chosen profile; its flux is pi*B0*r^2/q with the sign of the current; its domain is the closed circle of the minor radius about the axis; converting it to a numeric field tabulates the same field and flux on the uniform grid that spans that circle, with the same axis and wall. The avalanche, Connor-Hastie (with its Gaussian cut-off), exponential pitch and unit distributions equal their documented formulas, with the sign of the pitch ignored, and a radial distribution is the product of its profile and its momentum distribution.',
     ['inputs'], 'every parameter, sign and evaluation point',
     'Tests sample a few points with one set of parameters.',
     ['src/MagneticField/MagneticFieldAnalytical2D.cpp', 'src/DistributionFunction'],
     [('Eval, EvalFlux, ToNumeric2D, constructors', 'src/MagneticField/MagneticFieldAnalytical2D.cpp'), ('AnalyticalAvalanche::Eval', 'src/DistributionFunction/AnalyticalAvalanche.cpp'), ('ConnorHastieDistribution::Eval', 'src/DistributionFunction/ConnorHastieDistribution.cpp'), ('ExponentialPitch::Eval', 'src/DistributionFunction/ExponentialPitch.cpp'), ('RadialDistributionFunction::Eval', 'src/DistributionFunction/RadialDistributionFunction.cpp')],
     'abstract interpretation over formulas of the parameters, identity with the documented formula by algebraic normal form',
     'Values compared as real functions of the parameters and coordinates (rounding, overflow and underflow not modelled); small grids for the conversion to a numeric field. The derivatives of the field are the subject of C32.')
prop('C37', 'A distribution loaded from file is the one the file describes',
     'Loading a distribution (SOFT, old SOFT, LUKE, DREAM, CODE, GO+CODE) gives, at every radius, exactly the grids and the table of the file, at the time step and the radius selected (negative time indices count from the end), interpolated with the method and stored (plain or as logarithms) as asked for. Units are the documented ones: SOFT, DREAM and GO+CODE radii are shifted by the major radius of the magnetic axis; LUKE radii run from the magnetic axis to the outermost radius and its momenta are multiplied by betath_ref; momenta of old SOFT files are normalised to the electron mass (times c) from the units they declare (ev, normalized, si); CODE momenta are y*delta and its modes are scaled by nref/(2*pi*m_e*Tref)^(3/2), a missing reference value counting as one. DREAM loads f_re if present and else f_hot unless a name is given, with the momentum grid that belongs to it. A file of another type, with radii that do not increase, with unknown momentum units, or whose verification vectors (old SOFT) differ from the table is refused.',
     ['inputs'], 'every file, time step, radius, interpolation method and storage',
     'The test suite loads one or two files; a swapped axis, wrong group, unit or time slice in any other combination goes unnoticed.',
     ['src/DistributionFunction'],
     [('Load, LoadMomentumSpace, __Load', 'src/DistributionFunction/SOFTDistributionFunction.cpp'), ('__Load, Verify', 'src/DistributionFunction/deprSOFTDistributionFunction.cpp'), ('__Load', 'src/DistributionFunction/LUKEDistributionFunction.cpp'), ('__Load', 'src/DistributionFunction/DREAMDistributionFunction.cpp'), ('Load', 'src/DistributionFunction/CODEDistributionFunction.cpp'), ('Load', 'src/DistributionFunction/GOCODEDistributionFunction.cpp')],
     'abstract interpretation of every loader over model files with symbolic elements and constant names, element-wise identity of the interpolated tables',
     'Finite model files (a few radii, momenta, pitches, modes and times, with extents that differ so that no two axes can be confused); contents symbolic. The file layer itself is C01-C07; extents that do not match are C16, indices out of range C21. Physical constants compared to four digits.')
prop('C38', 'Configuration lookups and merges answer exactly what was set',
     'Looking up a setting or sub-block of a configuration block finds the one whose name (and type) equals what was asked for and nothing else; asking whether it exists agrees with that. Retrieving a setting marks it, and only it, as used; asking, setting and merging mark nothing, and the settings reported as unused are exactly the unmarked ones. Adding a setting whose name exists replaces its values, otherwise appends it; adding a sub-block that exists returns the existing one. Merging overwrites the settings both blocks have, creates the new ones where allowed and otherwise reports the names of exactly those, at every depth. Registered block types keep distinct identifiers that their names lead back to, and the values of a setting are returned by position, with an exception beyond the last.',
     ['histories', 'inputs'], 'every block, name, type, value list and sequence of lookups, additions and merges',
     'Tests read one fixed file; they never merge, look up names that are prefixes of others, or inspect the marks.',
     ['src/Configuration/ConfigBlock.cpp', 'src/Configuration/Configuration.cpp', 'src/Configuration/Script/SettingScript.cpp', 'include/softlib/Configuration.h'],
     [('lookup, addition, merge and use marks', 'src/Configuration/ConfigBlock.cpp'), ('values of a setting', 'src/Configuration/Script/SettingScript.cpp')],
     'interprocedural dataflow over heaps of symbolic objects, compared with the documented merge rules',
     'Names and types are only compared for equality by this code, so the patterns of equal and different names enumerated stand for all of them.')
prop('N01', 'Interpolated values approximate the tabulated functions',
     'Interpolated magnetic fields, derivatives and distribution functions approximate the tabulated function with the order of the chosen interpolation method.',
     ['inputs'], 'every table and query point', 'Values can only be sampled.',
     ['src/MagneticField/MagneticFieldNumeric2D.cpp', 'src/DistributionFunction'], [('GSL bicubic splines', 'src/MagneticField')],
     na='a statement about floating-point values of a third-party interpolation library; no structural clause beyond C12/C16 is a necessary condition')
prop('N04', 'Peaked integration converges to the requested accuracy',
     'Numerical integration of a peaked integrand converges within its tolerance.',
     ['inputs'], 'every integrand', 'Only sampled.',
     ['src/Integration/PeakedIntegration.cpp'], [('adaptive bisection', 'src/Integration/PeakedIntegration.cpp')],
     na='quantifies over an opaque user integrand and floating-point convergence')
