PER={
'C01':"Views of every typed writer/reader of SFile_HDF5 and SFile_MAT. Abstract interpretation collects the constant `H5::PredType` that reaches createDataSet/createAttribute (file type) and write/read (memory type) on every path. Oracle: the C element type of the parameter from debug info; the memory type must be equal to it, the file type must represent all its values. GetDataType is case-split over the stored class/sign/size. Tests see only a few small values.",
'C02':"The terms stored into the extents array given to DataSpace, the extents read back, and the addresses of the row-pointer loop are compared as polynomials in (rows, cols, i, j). Holds for all shapes since the comparison is symbolic.",
'C03':"Must-reach: on each normal path of each MAT writer exactly one dataset is created and an attribute `MATLAB_class` with the constant text of the element type is written to it (and int_decode/16-bit for strings).",
'C04':"Each generic reader is analysed once per enumerator of the stored type (and once for a value outside the enumeration): the typed reader called must be the one of that enumerator, elements converted with the signedness/width of that type at the same index (loop step function), shape guards are case-split.",
'C05':"Escape analysis: a returned pointer (and slot 0 of a row table) must be the result of new[] in the same call, must not be stored in the file object or released before.",
'C06':"Sequence of stream effects of writers (name, rows, cols, elements, separators, precision) versus what the parser consumes; element index polynomials; precision at least 17 digits before the first number.",
'C07':"Fault model: each library operation that can fail (open, dataset/attribute lookup, stream state, map lookup) is made to fail; no path may then return normally, and what leaves must derive from SOFTLibException (handlers matched through the type hierarchy).",
'C08':"A finite set of text classes (number in/out of each range, sign, trailing garbage, real, overflow, lists) is pushed through query and reader; oracle: query yes <=> reader returns the written value. The C++ conversion functions are modelled by their contract.",
'C09':"Product of the inlined interpreter with the token grammar: any run of the product in which the grammar rejects while the error flag is unset and no exception leaves is reported with its token sequence. Lexer: for each character class in each lexer state its text must be kept, be white space/comment, or be an error.",
'C11':"Same product with end-of-input facts: reading a token/character after the end marker is reported, and so is each cycle of the product graph which consumes nothing.",
'C13':"Value flow from the parameters of each shorthand overload to the arguments of the full form (or, if inlined, equality of the formulas).",
'C14':"On finite instances (`cloneinst.py`: one to three radii in either order, every combination of flags, several table sizes) the clone of a tabulated distribution must have, radius by radius, the tables, grids, limits, flags and interpolation method of the original. For each concrete class: members read by the evaluation views (transitively through virtual tables) are compared with the value the clone's member gets, as a term over the original's members; case splits over null/non-null and flags. A member is reported only when two objects differing in it evaluate differently.",
'C15':"For each concrete class: objects written during evaluation (stores through member pointers, GSL accelerators, result buffers) versus pointers shared by the clone; static locals written by evaluation.",
'C18':"`domaininst.py` follows sequences of calls (set a boundary, query in various orders, set another, query again) through `deep.py` on seventeen boundaries of three to eight points, including vertices and edges on the level of the axis, several crossings and either sense; reported limits are compared at the point the instance stands for. Where these instances decide, the arguments for every size below are supplementary. Setters must invalidate; scans are judged by their step function on all orderings of (min, max, element) and by index coverage; crossing interpolation by formula identity on each side of the level.",
'C19':"Cases: order of shifted radius and limits, decided by sign of polynomials; formula identity inside, zero outside, throw in the constructor exactly when rmax <= rmin.",
'C25':"Witness instantiations for dimension 1-4 are unrolled completely; each result element is compared as a polynomial with the textbook result, also with aliased operands. Misuse has compile-fail witnesses.",
'C26':"As C25 for shapes 1x1..3x4; operators that did not compile are witnesses which must compile.",
'C27':"All writable objects of static storage defined by the library are enumerated and each store/copy/modifying call in each function (incl. all inline methods) that can reach one is reported; C library routines with hidden state on evaluation paths as well.",
'C32':"The value of each evaluation routine is extracted as a formula in (x, y, z, parameters) on each region of branch conditions; the derivative routines must equal the symbolic derivatives. Interpolated components: which table is evaluated, with which derivative.",
}
PER['C31'] = "Lock-set dataflow over the OpenMP view of PrintProgress (all helpers inlined): each access to something a notification writes must hold one common critical lock. Points: induction over the report number k with total = d*nprint + m, cases d = 0/d > 0, k below/at/above m, notification below/at/beyond the point; next point, number and printed number are compared as polynomials."
OBS = """* `MagneticFieldNumeric2D`: the cylindrical radius is clamped to the grid before the angle is formed from it, so outside the
  grid the direction of the in-plane components is scaled. Whether extrapolation is meant to do so is not documented.
* Memory that is never released (tables of numeric fields, matrices of SDT files, some temporary extents) is not a claim here:
  C29 is about releasing too much or the wrong thing, not about leaks.
* `SFile_MAT` uses `localtime` for the header (hidden static state, file creation only)."""
PER['C28'] = "Every construction of a library exception (template arguments give the exact argument types) and every printf-family call in every view. The text of the format string object is followed through constructors, concatenation, assignment and helpers; what each exception constructor does with its message (stores it, formats it, prefixes it) is derived from its own body. The formatter itself is evaluated by cases of the length snprintf reports."

PER['C30'] = "The views of both `SaveImage` writers, `ImageColormap::Eval`, the constructor and the dispatchers. (a) The formula extracted from `Eval` is evaluated at representative values of every region of the value (below, at, between every pair of colours, above, infinite, NaN; several ranges; 1, 2, 5 colours) and compared with clamped linear interpolation; an index outside the table or an undefined conversion is a violation. (b) A token automaton over all paths of the PPM writer fixes `P3 width height 255 (r g b)*` with separators; (c) for PNG the bytes of a row are traced back through the intermediate picture (nested induction variables become polynomials of the iteration numbers) to the array element; both must give element x*ncols+y for column x of row y, with trip counts nrows and ncols, and buffers must not be smaller than what is stored. (d) Dispatch per enumerator and for an unknown one; (e) with the open failing, no path returns."

PER['C17'] = "`filemodel.py`: the loader or saver is interpreted abstractly against a file in which a chosen set of tables exists with symbolic extents; reading a table gives a symbolic row table, a missing one throws. `Save` is analysed for every combination of separatrix, wall and flux: the set of names written on every path, the member behind each (through temporary row tables), its extents, and rows that do not overlap. `Load` is analysed for every combination of optional parts and both storage orders: after it, each member must be the copy of its table with element (z, r) at r + z*nr, trip counts equal to the grid sizes, and the domain must be set from the right outline. `Transpose` is proved separately as r[i][j] = a[j][i]. `fieldload.py` additionally follows `Load` on finite model files (grids 3x2, 2x3, 2x2, either storage order, every combination of optional parts, outlines either way round, verification vectors right and wrong) and `Init` with arrays, tracing each element of each member to the element of the file; where these instances decide, they take precedence over the arguments for every size, which depend on how loops are written. Files without a required part, or with neither outline, must not be accepted."
PER['C12'] = "The initialiser of each interpolated class is interpreted abstractly with a grid of known values, giving the members (limits, lengths) after initialisation. Each evaluator is then interpreted for every region of the query point (far below, below, on the first point, inside, on the last, above, infinite; both coordinates; several azimuths; every combination of the boolean settings), comparisons being decided by the representative values. Each reached `gsl_*_eval*` call must receive the query coordinates (fields: moved to the nearest limit), inside the grid; where no interpolation is due the returned term must be zero. A coordinate that cannot be evaluated is undecided, not a violation."
PER['C16'] = "`filemodel.py` + `strmodel.py` (constant propagation of names) + `access.py`. Each loader (CODE with and without path, LUKE, old SOFT, SOFT, DREAM for both populations, numeric equilibrium, LUKE equilibrium with and without wall, and the momentum-space forms) is interpreted against a file with consistent tables, in each accepted orientation, and against one wrong table at a time: each axis one longer and one shorter, axes exchanged, other rank, non-vector grids. Wrong: no return may be reachable (a loop that runs at least once is only left through an iteration; exceptions swallowed by a catch are followed). Right: a return is reachable and every load, store, copy and hand-over to interpolation, in every iteration admitted by dominating branches, is inside its table. If a raising guard could not be read the case is undecided."
PER['C21'] = "`c37.selected`: on model files with three radii or several time steps, what is interpolated after loading is, element by element, the selected data. The same machinery with the selected index set to values below, at, between and above both bounds (and the extremes of its type): refused ones must not return; accepted ones must return, touch only the slice of that index and, for GO+CODE, build the group name from it."
PER['C22'] = "`witness/ode.cpp` runs one step of `RKDP45<N>` (N = 1..3) on an equation that is an undefined function; `rules/ode.py` records each of its calls and makes its results symbols, so stage times and points, new solution, error estimate and new derivative come out as formulas. They must be linear in those symbols, element by element (compared at generic points); the weights read off must satisfy: row sums = stage times, the 17 conditions to order 5, the 8 conditions to order 4 for the estimate, whose leading term must be that of the published pair, and first-same-as-last."
PER['C23'] = "The controller (`RungeKutta<N>::Step`) around a method that is an undefined function, on histories of its error estimate (a number relative to the tolerance, zero, or not a number; not-a-number propagates). Each call of the method must start from the time, solution and derivative of the last accepted one; step ratios must respect the limits, rejection and growth rules; everything stored, returned and handed to dense output must be the result of the accepted call, written inside the storage asked for; two histories that never reach the tolerance must end in an exception."
PER['C24'] = "`witness/odeuse.cpp`: the whole integrator, through its public interface, on an unknown equation for up to three steps, then dense output at symbolic times placed in, on the borders of, or outside the steps. The returned formula, as a polynomial in the time, must reproduce the stored solutions and derivatives at both ends of the containing step (a border belongs to either), its weights must satisfy the 8 fourth-order conditions scaled to the intermediate time, and outside requests must end in an exception. Two defects found and repaired: times before the first step (and requests without dense output) were extrapolated, and times not in increasing order used the wrong step."

PER['C20'] = "`small.py`: forward product dataflow over the inlined view of each initialisation entry point on a finite instance (2 radii, 2x2 tables): extents and indices are constants, table elements are symbols, numbers are formulas over them; a comparison is decided by the region (all positive, a zero, a negative element, first or later), an unmodelled call or branch makes the obligation undecided. The sink is what reaches `gsl_spline2d_init`: each element must be the table element, or its logarithm exactly once, and the flag must agree, from a fresh object and from one initialised the other way. `Eval` must return s or exp(s) of the interpolated value according to the flag."
PER['C33'] = "Same engine. `Eval` of both radially tabulated classes for one to five radii, increasing and decreasing, query below, above, on and between every pair of radii, extrapolation permitted or not: the formula returned must equal, by algebraic normal form, the line through the two neighbouring (outermost) radii, with every table asked for the momentum and pitch of the query. Searches are followed whatever their form, because all indices are constants of the instance. `Initialize` and both `Insert` routines for up to four radii (fresh and used objects, every place of insertion): radii in order, each with its own slice handed to the interpolation library, limits equal to the extremes; grids that are not monotonic must be refused."
PER['C34'] = "Same engine with one to five modes: the value of `Eval` must equal sum c_l P_l(-xi) as a polynomial, or 0 if that is negative, for every history of the cached polynomials (none, same, other, opposite, close pitch); `ToMomentumSpace` must store that sum at every node of a pitch grid from -1 to 1 and leave no stale cache; each mode is initialised over its own row with the method of its enumerator."
PER['C35'] = "Same engine over the coordinates as symbols: boundaries of 1, 3, 4 and 5 edges with segments across, up to, away from, parallel to, ending on and starting on each edge and corner, in two toroidal directions, decided with exact rational arithmetic; every overload. For a single edge every comparison of the body is shown, as a formula, to be the sign of an intersection parameter (or of the determinant), which makes the decision right for every edge and segment. A defect was found and repaired this way (parallel segments were reported)."
PER['C36'] = "Same engine. Every `Eval` (and the constructors and `Initialize` that set the parameters it reads) is interpreted with the parameters, the point and the signs as symbols; each path's result is compared, as a formula, with the documented one. Field: five safety-factor profiles (and the flat-current limit), four combinations of signs, points inside and outside the axis radius, above and below, and on the axis; flux likewise. `ToNumeric2D` on three small grids: every element of grid, components, flux and wall handed to the numeric field. Constructors: signs, members, and the points of the circular domain. Distributions: both signs of the pitch, below and above the cut-off, cut-off disabled."
PER['C37'] = "Same engine plus a model of the file (rules/loader.py): a table of variable names, extents and one symbol per element; text is propagated as constants through std::string, so the name asked for is known at every read. Each loader is followed on complete files (both storage modes, both 2D interpolation methods, all five 1D ones, time indices from either end, two-digit group numbers, optional reference values absent, group paths with and without the trailing slash, each shape of the old table): what reaches `gsl_interp2d_init`/`gsl_interp_init` and the radii must be, element by element, the symbols of the file in the documented units. It is also followed on files that must be refused (type, units, order of radii, each element of each verification vector off by a little in both directions). Undecided paths are reported as such, never as violations."
PER['C10'] = "rules/deep.py extends the dataflow engine across calls: recursion, virtual calls of objects of known class (vtables), destructors and exceptions are followed into the callee's own IR view with the caller's heap; text and lists of text are propagated as constants. rules/confmodel.py lays out trees of blocks and settings (both kinds of settings, every kind of value); rules/c10.py follows the copy constructors, `Copy`, `Merge`, `OverwriteValues` and the destructors on them and compares the heaps before and after: disjointness of what source and copy reach, equality of contents, parents, unchanged source, and the multiset of objects released. The code compares names and types only for equality and treats values as opaque, so the trees (every combination of same/other name, same/other type, empty/one/many, nested thrice) stand for all. BOOL lists of data-file settings (`std::vector<bool>`) are not modelled."
PER['C38'] = "Same machinery (rules/deep.py, rules/confmodel.py). rules/c38.py follows every lookup, addition, merge, mark query and positional access on blocks whose names include prefixes, extensions, the empty text and equal names with other types, and compares result and heap with a direct statement of the documented rules; the merge is compared with a ten-line reference of the documented rule at every depth, with and without permission to create."
