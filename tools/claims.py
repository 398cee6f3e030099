claim('P01', 'specs/Project.tla + RunLog.tla; ' + REPLAY,
      'Exhaustive for the bounded models (1-2 projects, 0-3 branches, 1-3 run names, 1-2 handles); simulations are stand-in executables; file names without glob characters.')
claim('P02', 'specs/Project.tla; ' + REPLAY,
      'Frame and refusal are action properties of the model and compared on the whole directory tree after every real step; same bounds as P01.')
claim('P03', 'specs/Project.tla (life-cycle configurations); ' + REPLAY,
      'Settings, handles and reopened handles are compared after every step; bounded option sets and up to 3 projects.')
claim('P04', 'specs/Crash.tla; every file-system call of each operation used as crash point and failing call, recovered state checked against the model',
      'Crash points are file-system calls intercepted by an LD_PRELOAD shim (process death, torn write, ENOSPC); loss of unsynced data on power failure is not modelled.')
claim('P05', 'specs/Aliased.tla; ' + REPLAY,
      'Exhaustive transitions for 3-5 keys, 2 values and one named group; aliases drawn from four concrete name pools.')
claim('P06', 'specs/AliasedBuild.tla, AliasGroups.tla: every partition of the alias universe into groups built by every route, every pair merged; ' + REPLAY,
      'Up to 5 aliases; merging restricted to groups equal or disjoint, as documented; separately given groups hold strings.')
claim('P07', 'specs/Symbolic.tla (reference grammar and denotation over all token sequences), SymOps.tla (operation histories); every sequence rendered in concrete spellings and parsed by the real code',
      'Token sequences up to length 5-10 over several small alphabets; irrational coefficients compared to 1e-12; "a / 2(b)" and leading operators are left unspecified.')
claim('P08', 'specs/Symbolic.tla: acceptance or rejection, strict operator order, printing, comparison, hash and difference of every bounded token sequence against its denotation',
      'Same bounds as P07; comparison pairs are sampled, 5 per expression.')
claim('P09', 'specs/UnitDefs.tla (what every named unit denotes in SI and in Gaussian units), UnitPairs.tla, UnitConv.tla: TLC enumerates pairs of units and products with the ratios they must have; each is asked of the real code in several spellings and orders in fresh processes',
      'All 21 prefixes x 47 units against two prefixes x 47 units; products of up to two factors (four terms) per side; factors to 1e-5 in log10 against the specification and 1e-9 among themselves. Conversions between mixed mks/cgs electromagnetic products are not required to exist.')
claim('P10', 'specs/UnitOps.tla (histories of unit arithmetic with their denotation), UnitQuant.tla (dimension of every quantity in each system), UnitTable.tla: evaluated by the real code in several spellings and compared',
      'Histories of up to 3 operations (4 thorough) over 12-14 units; dimensions of units whose terms are not all defined in a system are only required to be consistent.')
claim('P11', 'specs/Universal.tla: dimension of every constant in each system, its cgs/mks ratio, and the relations that define constants in terms of others, checked homogeneous by TLC; evaluated on the real values',
      'Relations hold to 1.3e-4 (the tables have five digits), ratios across systems to 2.2e-5; k, G, g, mp, and amu are only related across systems.')
claim('P12', 'specs/ArrayChain.tla (with Labelled.tla, Index.tla): TLC enumerates histories of unit conversions, subscripts and transpositions with the values and unit that must result; ' + REPLAY,
      'Arrays of up to 3 dimensions of length up to 3 and histories of 2-4 operations over three units; values are exact integers scaled by powers of ten, compared to 1e-12.')
claim('P15', 'specs/Index.tla, Labelled.tla, ArrayChain.tla: semantics of index expressions over named axes, all expressions over a bounded vocabulary of integers, slices, lists and Ellipsis; ' + REPLAY,
      'Up to 3 dimensions of length up to 3-4; a bare list or a tuple in place of an index on one axis is left unspecified.')
claim('P13', 'specs/PhysOps.tla: every operator on every pair of operand kinds (number, scalar, vector, tensor, array), relation of units and side, with exact rational results, histories of up to 2 operations; ' + REPLAY,
      'Units of results are compared by what they denote (products come out in base units); == with bare numbers is left unspecified; operands of one shape only, alignment is P14.')
claim('P14', 'specs/ArrayArith.tla (with Labelled.tla): every pair of arrays over bounded sets of dimensions, orders, lengths and coordinates, with the pairing of elements that must result or the refusal; ' + REPLAY,
      'Up to 3 dimensions of length up to 3, operands in up to 15 orders of dimensions (thorough), histories of 2-3 operations; where both operands have different coordinates of one length, products may keep either.')
claim('P16', 'specs/AxisLookup.tla (with Index.tla): TLC enumerates axes of each kind, their subscripts and unit conversions, and every bounded lookup with the positions it must find or its refusal; ' + REPLAY,
      'Axes of up to 4-6 entries, up to 9-10 distinct coordinates between and beyond them; targets are spelled in 10 ways and in three units; coordinates at least 1e-4 apart in relative terms. Where nothing lies on the requested side, the end of the axis is expected.')
claim('P25', 'specs/Names.tla: all ordered sets over 3-4 names with every operation and operand, replayed on dimensions and on axes; ArrayChain.tla for arrays; ' + REPLAY,
      'Replacing or inserting a name that is already there and the before/after locators of Axes.insert are left unspecified; the order of a union is only required to keep the orders of both operands.')
claim('P26', 'specs/IndexExprs.tla (with Index.tla): every bounded expression against every bounded shape, and bracketing ranges of ascending grids; IndexArith.tla: index arithmetic, comparison and bounded shifts; ' + REPLAY,
      'Up to 3 dimensions of length up to 4 and 4 index parts; sequences of different lengths, numpy numbers on the left of an index object, and an ellipsis that stands for no axis elsewhere than at the end are left unspecified; arrays to restrict are ascending.')
claim('P28', 'specs/ArrayFuncs.tla (with Labelled.tla, Rat.tla): every supported numpy function, axis, spacing and flag on arrays with exact rational values, mixed with subscripts and unit conversions, up to 2 steps; ' + REPLAY,
      'Up to 3 dimensions of length up to 4 (5 starting shapes); keepdims is specified for real arrays only (the axis of a physical array has no single position to keep); functions without an implementation here (exp, square, ...) are unspecified.')
claim('P24', 'specs/Atomic.tla: the table of elements and what masses and charges stand for; TLC enumerates every element with charges -9..9, masses near those of the elements, and lists of up to 2-3 species; ' + REPLAY,
      'A mass shared by two elements (Bk and Cm, Bh and Db) or halfway between integers and not that of an element is unspecified.')
claim('P20', 'specs/Parameters.tla (with Rat.tla): definitions of parameters and constants (literals, references, sums, products, constants with products and powers) and the values they must have for every set of given values; each is written as C source and a configuration file in varying layouts and read through the interface under every alias',
      'Up to 3-4 parameters defined in a run and 2 (3 thorough) given, plus the whole default table of the package; angles not given in a run with useDegrees are unspecified.')
claim('P21', 'specs/ConfigText.tla: sequences of lines of every layout with what they mean, and the difference of two files; written with several comment marks, read, looked up and compared; the command-line interface generates and compares files, whose effective values are taken from the (P20-checked) interface',
      'Up to 3-4 lines per file and 2-3 per pair; a parameter no file sets is not required in a comparison.')
claim('P22', 'specs/Observers.tla: TLC enumerates directories over a universe of relevant and misleading file names with what each way of asking must find or refuse; replayed on directories of synthetic netCDF files',
      'Directories of up to 3-4 of the names in the universe; named plain files may or may not be listed; IDs with slashes or glob characters are unspecified.')
claim('P17', 'specs/Observe.tla (with Index.tla, Rat.tla): requests (integers, slices, lists, symbols, coordinate values) over every kind of stored observable, one and two species, distribution and flux datasets, with the exact entries they must give; sent in varying spellings, aliases and units to stream and point observers in every metric system, shared between requests',
      'Sizes up to 4; at most 2 (3 thorough) dimensions of a request are not plain. Unitless scalars, vectors and measurements are positions (documented), so a pitch-angle cosine is written with its unit.')
claim('P19', 'specs/Observe.tla: requests with physical values on, between and beyond the grids of time, radius (which depends on time), energy and cosine, mixed with positions, and their exact linear interpolation or refusal; sent in every accepted spelling and unit to observers in every metric system',
      'Stored observables (derived ones are decided by P18). Grid sizes up to 4, at most 2 (3 thorough) dimensions of a request are not plain. One-dimensional coordinates asked for out of range are unspecified.')
claim('P18', 'specs/Derived.tla (extends Observe.tla): the defining term of every derived observable, checked by TLC for homogeneous units and dimensions, combinations of observables by operators and as text, requests (positions, symbols, values on and off the grids) with where their members lie, and minimum energies; the harness evaluates the terms on the stored arrays (decided by P17) of distribution and flux datasets in the mks and cgs systems and compares every answer',
      'Grid sizes up to 5, at most 2 (3 thorough) dimensions of a request are not plain; combinations of up to 1 (2 thorough) operators; integral flux is integrated by Simpson\'s rule, and only requests with minimum energies are specified; text is reduced, so what cancels in it is unspecified.')
claim('P23', 'specs/Collections.tla (unique, merge, nearest, slices, nested collections, bijections), specs/Tables.tla (every request to every small table), specs/Registry.tla (histories of registering, overwriting, copying and resetting; the free key is the implementation\'s choice, so observed histories are checked against the specification), specs/Edges.tla (graphs); replayed with varying values and containers',
      'Collections of up to 4 elements, tables of up to 4 (5 thorough) records with 3 keys, histories of 3 (4 thorough) operations. Merging collections which repeat elements is unspecified (the tests keep the repetitions).')
claim('P27', 'specs/Spellings.tla: every nesting of numbers, numeric strings, units and lists up to depth 3 with its unit or refusal, the values being all numbers in the order in which they are written; specs/Remeasure.tla: chains of measuring, constructing, converting and subscripting measured objects; written in varying number types, containers and unit spellings',
      "Lists of up to 3 (4 thorough) elements; '1' among numeric strings and text with both number and unit are unspecified.")
claim('P29', 'specs/Views.tla: histories of writing, replacing, exchanging, removing, opening and observing data files, with what a view of each must show (TLC over contents drawn by the harness); replayed on netCDF files in three formats, with all parts of each view compared with what was written, held views read again later',
      'Contents of up to 8 variables of up to 3 dimensions and whole runs; 3 files, histories of any length over the explored states. Files are replaced, never written in place while open.')
claim('P30', 'specs/Interfaces.tla: worlds (type of observer, distribution or flux, metric system) with, for every interface and name, what it answers (variable of the file, dimensions, unit, refusal), as a transition system of requests; replayed as histories of requests on synthetic files whose variables are in varying units, with values compared after exact conversion',
      'Files hold either a distribution or a flux; units without a quantity, names a flux run lists but does not hold, and moving point observers are unspecified.')
claim('P31', 'specs/Plots.tla: arrays which are subscripted, scaled, converted and plotted with every combination of axis, unit, labels, style and destination, with what each plot must show or why it is refused; random walks of the explored graph are replayed on real arrays, comparing what is handed to matplotlib at the moment it is shown or saved',
      'Arrays of up to 3 (4 thorough) dimensions; lines, labels, limits and destinations are compared, not pixels. A plain list as horizontal values is unspecified.')
claim('P32', 'specs/Helpers.tla: histories of registering exceptions of a hierarchy with multiple bases and calling guarded functions, and of making singletons, members of instance sets and sentinels, with what must come of each; tables of type comparisons, conversions of exceptions and joined strings; random walks of the explored graph are replayed with real classes and functions',
      'At most two registered types, seven types, two classes per set. One sentinel name with two contents is unspecified; where two unrelated registered types apply, either value is accepted.')
claim('P33', 'specs/Paths.tla: entries, links, places and the current directory change; searches, templates, locations and full paths with what each must find; random walks of the explored graph are replayed on real directories with varied spellings; tables of comments and of lines of files are compared',
      'Three places, two entries, at most two (thorough: three) entries at a time. An environment which names what does not exist is unspecified.')
