"""Writes /verif/properties.jsonl (kept as code only so that it is easy to edit)."""
import json, pathlib
S='src/eprempy/'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=list(over),text=text),why_tests_cant=why,
      anchors=dict(files=[S+f for f in files],
        state=[dict(name=n,meaning=m,where=S+w) for n,m,w in state],
        mechanism=[dict(name=n,where=S+w) for n,w in mech],
        observe_at=list(observe),hook_needed=None)))

p('P01','The run log and the run directories of a project always agree',
 'After any history of create, open, copy, run, mv, rm, reset, rename and remove on EPREM projects (with or without branches, through any number of handles), the run log holds exactly one entry, keyed by the full current path, for every run directory whose simulation exited with status 0 and that has not been removed, and no entry for anything else. The available runs and the branch-to-run listing reported by the project are exactly the run directories on disk. An entry keeps the metadata of the run it was created for when the run or the project is renamed.',
 ['histories','configurations'],
 'every history of project operations, over projects with 0-3 branches, runs whose simulation succeeds or fails, and several open handles on the same project',
 'project.py has no tests at all; the agreement is a relation between a JSON file and a directory tree that only histories (mv after a failed run, rename after mv, rm by pattern through a second handle) can break.',
 ['project.py','paths.py','_project_main.py'],
 [('log update after each path operation','project.py:Interface.run/_create_run/mv/rm'),('re-keying on rename','project.py:RunLog.update_directory'),('path operations per branch','project.py:RunPaths')],
 [('runs.json','one entry per successful run plus common attributes','project.py:RunLog'),('run directories','root/[branch/]runs/<run>','project.py:RunPaths')],
 ['Interface.log','Interface.runs','Interface.branches','the directory tree'])
p('P02','A project operation changes only what it names',
 'A project operation affects only the named runs in the selected branches (all branches by default): every other run directory and its contents, log entry, branch and project is left exactly as it was, and a renamed run or project keeps its contents. No operation ever overwrites or merges into an existing run or project, and in each branch a refused operation (existing target, missing source, missing config file, existing project) has no effect there. Removal deletes the matching runs, and only these.',
 ['histories','inputs'],
 'every operation applied in every reachable project state, for valid and invalid arguments, with errors raised or suppressed',
 'no test exercises projects; isolation is a frame condition over everything the operation does not name and over refused operations in every state.',
 ['project.py','paths.py'],
 [('safe mkdir/mv/rm','project.py:RunPaths._mkdir/_mv/_rm'),('branch selection','project.py:RunPaths.define/_get_rundirs'),('error policy','project.py:_PathOperation.__iter__'),('refuse an existing project','project.py:Interface._get_attrs/rename')],
 [],['directory tree of all projects','exceptions'])
p('P03','Project settings survive reopening, renaming and copying',
 'The branches, config name, inputs, output, run-directory and log-file names given at creation are the ones in force whenever the project is opened again, after any number of renames, and in every copy of it unless explicitly overridden. Names, root, runs and equality of handles always describe the current location of the project, and a run is set up from and stored under those names.',
 ['histories','configurations'],
 'every combination of creation options followed by every history of open, rename and copy',
 'no test exercises projects; the guarantee spans several process lifetimes (handles) and combinations of options.',
 ['project.py'],
 [('settings file','project.py:Interface._create_project/_restore_project/_update_metadata'),('option defaults and localization','project.py:Attrs'),('copying','project.py:Interface._init_project')],
 [('.eprem.conf','serialized settings','project.py:Attrs.serial')],['Interface attributes after reopening','files written by run'])
p('P04','A crash or write error never damages the run log or project settings',
 'If the process dies, or a write fails, at any point of an operation on an existing project, then the run log and the project settings file on disk are each a complete document holding either what they held before the operation or what one of its completed updates wrote. No previously logged run disappears or changes because of it, and the project can be opened again.',
 ['crash_points','fault_sequences'],
 'every file-system call of every log- or settings-updating operation, as a crash point and as a failing call',
 'needs the process to die between two system calls; tests never crash a process, and project.py has no tests.',
 ['project.py'],
 [('replace-on-write of JSON files','project.py:RunLog.dump, Interface._update_metadata')],
 [('runs.json','run log','project.py:RunLog'),('.eprem.conf','settings','project.py:Interface')],['files on disk after the crash'])
p('P05','An aliased mutable mapping is a map from disjoint alias groups to values',
 'After any history of insertions, updates, deletions, aliasing, freezing and copying, an aliased mutable mapping behaves as a set of pairwise disjoint groups of aliases with one value per group: every alias of a group reads, writes and deletes the one value, lookups never see a stale value, and length, iteration, keys, values, items, equality and conversion to a plain dictionary agree with that view. An alias in use cannot be attached to another group and a refused operation changes nothing; copies and frozen views are independent of later changes to the original.',
 ['histories','inputs'],
 'every history over a small universe of keys and values, including refused operations',
 'tests in test_aliased.py check a few hand-written histories; alias bookkeeping bugs need particular interleavings of alias/delete/reinsert.',
 ['aliased.py'],
 [('alias bookkeeping','aliased.py:MutableMapping'),('aliased keys','aliased.py:Group')],
 [('groups','disjoint alias sets','aliased.py')],['mapping protocol','alias()','keys(aliased=True)'])
p('P06','Aliased mappings, alias groups and name maps resolve every alias alike',
 'For every way to build one (tuples, groups or sets as keys, an alias keyword in the values, separately given alias groups, fromkeys, copying), an aliased mapping gives the same value for every alias of an item and raises KeyError for anything else; its plain views enumerate every alias and its aliased views every group once. Merging two mappings whose alias groups are equal or disjoint (or a mapping and a plain dictionary) takes the union of items with later ones taking precedence, and leaves the operands alone. A group of aliases compares and hashes as the unordered set of its aliases, a collection of groups keeps them disjoint, and a name map sends each alias to its canonical name.',
 ['inputs'],
 'every partition of a small alias universe into groups, and every construction route and pair of mappings to merge',
 'tests sample a handful of constructions; agreement of routes and views must hold for all of them.',
 ['aliased.py'],
 [('construction','aliased.py:Mapping.__init__/_build_mapping'),('views','aliased.py:AliasedKeysView etc.'),('merge','aliased.py:Mapping.__or__'),('canonical names','aliased.py:NameMap'),('groups','aliased.py:Group, Groups')],
 [],['mapping protocol'])
p('P07','Symbolic expressions form an abelian group with rational powers',
 'A symbolic expression denotes a coefficient times a product of symbols with rational exponents, and parsing (any placement of spaces, implied or explicit products, quotients and parentheses), multiplication, division and powers compute exactly that: exponents add, subtract and scale, coefficients multiply, divide and exponentiate, and symbols with zero exponent vanish. Operands read with a coefficient or an exponent of their own denote the product or power. Combining expressions never changes the operands.',
 ['inputs','histories'],
 'every syntax tree up to a depth over a small alphabet of symbols, numbers and rational exponents, in every concrete spelling, and every history of operations on the results',
 'test_symbolic.py samples some dozens of strings; the algebra has to hold for all nestings of quotient, power and implied product.',
 ['symbolic/_parser.py','symbolic/_expression.py','symbolic/_operand.py','symbolic/_operator.py','symbolic/__init__.py'],
 [('tokenizer and resolver','symbolic/_parser.py'),('reduction','symbolic/_operand.py: reduce'),('group operations','symbolic/_expression.py: __mul__/__truediv__/__pow__')],
 [],['symbolic.expression(...)','iteration over terms','str()'])
p('P08','Symbolic expressions print, compare and hash by meaning',
 'Printing any symbolic expression with any supported formatting and parsing it back gives an equal expression. Two expressions compare equal exactly when they denote the same coefficient and exponents, whatever their spelling or the order of their symbols; equal expressions have equal hashes; and malformed text is rejected with an error, never silently misread.',
 ['inputs'],
 'all expressions up to a bound, all pairs of them, all formatting options, and single-character corruptions of them',
 'round trip and equality are relations over all pairs of spellings; tests sample a few.',
 ['symbolic/_expression.py','symbolic/_operand.py','symbolic/_parser.py'],
 [('formatting','symbolic/_operand.py: Term.format; _expression.py: format'),('equality/hash','symbolic/_expression.py: __eq__/__hash__'),('parser errors','symbolic/_parser.py')],[],
 ['str()','format()','==','hash()','exceptions'])
p('P09','Unit conversions are coherent',
 'Whenever a conversion factor from one unit to another exists, it is the ratio of their sizes: converting a unit to itself gives 1, converting back is the reciprocal, going through any third unit gives the same factor, and factors of products, quotients, powers and prefixed units are the products, quotients, powers and prefix ratios of the factors. The factor never depends on how either unit is spelled or on which conversions were asked before, and units of different dimension are never converted into each other. Objects that carry a unit are converted by the same factors, and refused where the conversion of their unit is refused.',
 ['inputs','histories'],
 'all pairs and triples of units built from the defined units and prefixes up to a bound, asked in any order',
 'tests check a table of pairs one at a time with fresh inputs; coherence is about all triples and about query histories through the caches.',
 ['metric/_units.py','metric/_conversions.py','metric/_reference.py','metric/_systems.py','metric/__init__.py'],
 [('direct/term-wise conversion','metric/_conversions.py'),('caches','metric/_conversions.py: cached conversion instances'),('conversion table','metric/_reference.py:_CONVERSIONS')],
 [('cached conversions','per-pair factor','metric/_conversions.py')],['metric.conversion(a, b)','unit >> unit','float factor'])
p('P10','Units form a dimensioned algebra independent of spelling',
 'Multiplying, dividing and raising units does the same to their sizes and dimensions; every accepted spelling of a unit (name, symbol, prefixed, in any order or grouping) denotes one unit with one dimension, and dimensionless combinations are the unit 1. The base and derived units that a metric system defines for a quantity or dimension are mutually consistent: they have the dimension of that quantity in that system.',
 ['inputs'],
 'all prefix x unit x power combinations up to a bound and all listed quantities in each metric system',
 'tests enumerate single units; the algebra quantifies over combinations and over all quantities in all systems.',
 ['metric/_units.py','metric/_defined.py','metric/_dimensions.py','metric/_systems.py','metric/_reference.py'],
 [('unit identity and equivalence','metric/_units.py'),('prefix/base decomposition','metric/_defined.py'),('dimension tables','metric/_reference.py')],[],
 ['metric.unit','metric.dimension','metric.system'])
p('P11','Universal constants mean the same in every metric system',
 'For every universal constant, the mks and cgs entries describe the same physical quantity: converting one value with the library\'s own units gives the other to the accuracy of the tables, and constants that are defined from others satisfy their defining relation in each system. Aliases and access paths give the same measured value with the unit of the requested system.',
 ['inputs'],
 'every constant, every alias, every pair of metric systems and every defining relation between constants',
 'tests read constants from the same table that defines them; only a cross-system relation can expose a wrong entry.',
 ['universal.py','metric/_systems.py','metric/_reference.py'],
 [('constants table','universal.py:CONSTANTS'),('system-aware access','universal.py:Constants')],[],['universal.Constants(system)[name]'])
p('P12','Changing the unit never changes the physical quantity',
 'Converting a scalar, vector, tensor or array to a compatible unit changes its numerical values by exactly the ratio of the units and nothing else, so that any chain of conversions, subscripts and transpositions gives the same result as doing the subscripts and transpositions on the original and converting once; converting back restores the values. Conversion to an incompatible unit is refused, and the original object is never modified.',
 ['histories','inputs'],
 'every chain of unit changes, subscripts and transpositions up to a bound, on every kind of measured or physical object',
 'tests convert once; factors that are lost or applied twice only show in chains.',
 ['physical/_array.py','physical/_object.py','physical/_scalar.py','physical/_vector.py','physical/_tensor.py','measured/_context.py','measured/_sequence.py','measured/_value.py','real/_array.py'],
 [('deferred scale factor','physical/_array.py: converter'),('unit context','measured/_context.py')],
 [('scale','pending factor of an array','physical/_array.py')],['withunit','data','unit'])
p('P13','Arithmetic on physical quantities is unit-checked and exact',
 'Sums, differences and comparisons of physical quantities are defined only for operands with the same unit; sums and differences keep it (a bare number may only be added to something unitless, and compares by value). Products and quotients, including floor quotients and remainders, combine values and take the product or quotient of the units; powers raise both, and the exponent must be unitless. The value is what the same operation gives on the plain numbers. Anything else is refused with an error rather than computed, and no operation modifies an operand.',
 ['inputs','histories'],
 'every operator on every pair of operand kinds (number, scalar, vector, array), units and shapes',
 'tests check single operator/kind combinations; the rule spans the product of operators, kinds and unit relations, in both operand orders.',
 ['physical/_operations.py','physical/_object.py','numeric/_operations.py','numeric/_operators.py','numeric/_mixins.py','measured/_context.py'],
 [('operator implementations','physical/_operations.py: additive/multiplicative/power/comparative'),('unit context','measured/_context.py')],[],['Python operators','exceptions'])
p('P14','Array arithmetic aligns operands by dimension name',
 'Arithmetic between arrays matches their axes by dimension name, not by position: each element of the result is the operation applied to the operand elements at the same named coordinates, and the dimensions of the result are those of both operands, each once, in an order that keeps the order of each operand. An axis of length 1 combines with every entry of the same axis of the other operand. Operands that share dimensions in a different order, or whose shared axes have different lengths (neither of them 1), are refused; sums and differences are also refused when the dimensions or the coordinates differ. Every result has axes matching its data.',
 ['inputs'],
 'every pair of arrays over up to three named dimensions in every order, with all axis lengths and agreeing or clashing coordinates',
 'tests check two or three dimension patterns; alignment quantifies over all ordered subsets of names on both sides.',
 ['real/_array.py','numeric/_array.py','physical/_array.py','physical/_axes.py','physical/_operations.py'],
 [('axis merging','physical/_axes.py'),('data broadcasting','real/_array.py')],[],['array operators','array.axes','array.dimensions'])
p('P15','Subscripting an array keeps values and axes in step',
 'Subscripting or slicing an array by any combination of integers, slices, index lists, Ellipsis and missing trailing indices selects exactly the elements whose per-axis indices are selected, keeps every dimension (an integer leaves an axis of length 1), and gives axes listing exactly the coordinates of the selected elements, in order. Subscripting the result again composes, and out-of-range subscripts are refused.',
 ['inputs','histories'],
 'every index form on every axis of arrays of up to three dimensions, and chains of them',
 'tests use a few index tuples; the agreement must hold for every mix of index kinds, including negative, empty, out-of-range and stepped slices.',
 ['numeric/_array.py','numeric/_index.py','physical/_array.py','physical/_axes.py','physical/_axis.py','real/_array.py'],
 [('index normalization','numeric/_index.py: normalize/expand'),('shape restoration','numeric/_array.py'),('axis subscription','physical/_axis.py')],[],['array[...]','array.axes'])
p('P16','Looking up axis coordinates finds exactly the requested entries',
 'Looking up points, symbols or measured coordinates on an axis returns the positions of exactly the requested entries, in the requested order; measured targets are compared as physical quantities, whatever unit they are given in. With a closest bound, the result is the nearest coordinate on the requested side (the end of the axis when nothing lies on that side); anything not on the axis is refused. Subscripting (by integers, slices, lists or masks), merging and converting axes keep labels, values and order, and an axis selected from another knows the positions it was selected from; an axis without labels finds exactly the positions that exist.',
 ['inputs'],
 'every axis over small coordinate sets, every target and target unit, and each bound',
 'tests sample targets; correctness must hold for each position, order, unit and bound.',
 ['physical/_axis.py','physical/_axes.py','physical/_axis_factories.py','container.py','numeric/_data.py'],
 [('axis lookup','physical/_axis.py: index'),('nearest','container.py:nearest')],[],['axis.index','axes.replace/permute/merge/...'])
p('P17','Subscripting an observable commutes with reading and converting it',
 'For every observable of every dataset, each of its names gives the same quantity; subscripting it by integers, slices, symbols or measured values in any unit selects exactly the corresponding entries of the full array stored in the file; changing its unit only rescales; and values read are those in the file expressed in the unit of the chosen metric system. The result never depends on which observables were read before or in which order.',
 ['inputs','histories','configurations'],
 'every observable, every mix of index forms, unit and metric system, and every order of access on shared observers',
 'the dataset the upstream observer tests need is not in the repository, so nothing here is tested; with it, only a few subscripts were.',
 ['observable/_interfaces.py','observable/_objects.py','eprem.py','datafile/_interfaces.py','datafile/_viewers.py','quantity/_functions.py'],
 [('subscription','observable/_objects.py'),('reading','datafile/_viewers.py'),('unit standardization','metric/__init__.py: standardize')],
 [('caches','views, observables','observable/_interfaces.py')],['observer[name][...]'])
p('P18','Derived observables satisfy their defining relations',
 'Every derived observable equals its definition computed from the primary observables at the same indices: Cartesian coordinates, vector magnitudes and products, parallel and perpendicular components, angles, the velocity divergence, flux, fluence, integral flux, energy-density and average-energy moments, mean free path, acceleration rate and rigidity; between grid points it is the definition of interpolated values or the interpolated definition. Algebraic combinations of observables, written as operators or as text, equal the same combination of their arrays.',
 ['inputs','configurations'],
 'every derived observable on synthetic datasets, full and subscripted, and algebraic combinations of observables up to a bound',
 'no dataset is available to the tests, so no derived observable is ever evaluated by them.',
 ['observable/_interfaces.py','observable/_objects.py','observable/__init__.py'],
 [('definitions','observable/_interfaces.py: one function per observable')],[],['observer[name][...]'])
p('P19','Interpolated observables agree with the grid and lie between grid values',
 'Asking a stored observable for a coordinate value that is not on its grid (radius, time, energy, pitch-angle cosine) gives the linear interpolation between the neighbouring grid values at the other indices; asking for a value on the grid gives the stored entry; asking outside the range of the grid is refused. The result has an axis at the requested coordinates, whatever unit these were given in.',
 ['inputs'],
 'every target position relative to the grid (below, on, between, above), single and multiple targets, several axes at once, in any unit',
 'no dataset is available to the tests, so interpolation is never executed by them.',
 ['observable/_interfaces.py','numeric/_index.py','container.py'],
 [('interpolation','observable/_interfaces.py: _interpolate/_apply_interp1d')],[],['observer[name][..., (value, unit), ...]'])
p('P20','Runtime parameters resolve to the configured or default value',
 'For every runtime parameter, looking it up under any of its aliases gives the value in the configuration file if there is one and otherwise the default, as a quantity in the parameter\'s unit or converted to the requested one; a default that refers to other parameters or constants follows their current values (those the configuration file sets, and otherwise their defaults). Unknown names raise KeyError.',
 ['configurations','inputs'],
 'every assignment of present, absent and overridden parameters over those with dependent defaults, every alias and every unit',
 'tests read one file; resolution must hold for each combination of present and absent parameters.',
 ['parameter/_runtime.py','parameter/_config.py','parameter/_metadata.py','parameter/reference.py','parameter/__init__.py'],
 [('defaults evaluation','parameter/_config.py: Defaults'),('arguments','parameter/_runtime.py')],[],['parameter lookups'])
p('P21','Configuration files are read, compared and written faithfully',
 'Reading a configuration file yields exactly the key-value pairs written in it, whatever the spacing, comments, blank lines and order; writing a set of values and reading it back yields the same set. Comparing two configuration files reports every key that either sets and whose effective value differs, with both values, and no key on which they agree, and swapping the files swaps the columns.',
 ['inputs'],
 'every small file over a grammar of line forms, and every pair of files over a small key/value universe',
 'tests read one file in one layout.',
 ['parameter/_config.py','parameter/__init__.py','parameter/_runtime.py'],
 [('parser','parameter/_config.py:_parse_config'),('diff','parameter/_config.py:ConfigFile.diff; parameter/__init__.py')],[],['ConfigFile','generate','compare/diff output'])
p('P22','Dataset discovery finds exactly the observers on disk',
 'For every directory of output files, the dataset lists exactly the stream and point observers whose files are there, under their ids, each bound to its own file and to the configuration file of the dataset; other files are ignored. Asking for an observer that is missing or ambiguous is refused, and the same directory reached by different spellings of its path gives the same data.',
 ['configurations','inputs'],
 'every subset of a universe of relevant and misleading file names, with each way to ask for an observer',
 'the dataset the upstream tests need is not in the repository; discovery is a function of the directory contents.',
 ['eprem.py','paths.py','datafile/_interfaces.py'],
 [('file patterns','eprem.py: Dataset.streams/points/observer'),('config search','eprem.py')],[],['Dataset.streams','Dataset.points','Dataset.observer','eprem.stream/point'])
p('P23','Containers and collection helpers obey their algebraic laws',
 'A table or record collection finds exactly the entry that satisfies all the given criteria and refuses missing and ambiguous requests; a bijection and its inverse always undo each other; a registry returns each registered object with its metadata; ordered merge keeps every element once and both orders and refuses contradictory orders; unique, unwrap, slice and nearest helpers select exactly the documented elements.',
 ['inputs','histories'],
 'every small table, mapping, sequence pair, slice and target over small universes',
 'tests sample a few cases per helper; the laws quantify over all small inputs.',
 ['container.py'],
 [('Table.find/get','container.py:Table'),('Bijection','container.py:Bijection'),('ObjectRegistry','container.py:ObjectRegistry'),('merge','container.py:merge'),('nearest','container.py:nearest')],[],['return values','exceptions'])
p('P24','Atomic species names, symbols, masses and charges are consistent',
 'Every element symbol, mass and charge written by the simulator identifies one species: building a species from its symbol, or from its mass and charge, and reading back symbol, mass and charge is a round trip for every element and charge state. Masses that belong to no element, unknown symbols, and lists of different lengths are refused.',
 ['inputs'],
 'all elements and charge states from -9 to +9 and beyond, masses on and near those of the elements, and mass lists',
 'tests check a few species; the round trip must hold for all elements and spellings.',
 ['atomic.py'],
 [('species parsing','atomic.py:Species'),('mass table','atomic.py:MASSES/elements')],[],['atomic.species','atomic.Species'])
p('P25','Named dimensions obey ordered-set algebra',
 'Dimension tuples behave as ordered sets of unique names: union contains every name of both operands once, keeps the order of each, and refuses operands in contradictory orders; intersection and difference keep the left order; permutation, insertion, removal and replacement give exactly the named tuple, and membership, equality and iteration agree with it; insertion before, after or at a place puts the new entry there, or is refused where there is no such place; every array operation that permutes axes permutes names and data together.',
 ['inputs','histories'],
 'all pairs of ordered name tuples over a small universe, and histories of updates',
 'tests sample a few tuples; the laws quantify over all ordered subsets.',
 ['numeric/_array.py','physical/_axes.py','real/_array.py'],
 [('Dimensions','numeric/_array.py:Dimensions'),('Axes','physical/_axes.py:Axes'),('transpose','real/_array.py:transpose')],[],['Dimensions operators','Axes methods','array.transpose'])
p('P26','Index expressions expand to exactly the positions they denote',
 'Expanding, normalizing, resolving and restricting an index expression against a shape gives exactly the positions that Python subscription semantics assign to it on every axis: Ellipsis fills the missing axes, negative indices count from the end, slices are clipped, and too many or out-of-range indices are refused. Arithmetic and shifting of index values and sequences act element by element, within the stated bounds.',
 ['inputs'],
 'every index form per axis and tuples of them for shapes of up to three axes',
 'tests check selected forms; positions must agree with subscription semantics for all forms and shapes.',
 ['numeric/_index.py','numeric/_array.py'],
 [('expand/normalize/resolve/restrict','numeric/_index.py'),('Value/Sequence arithmetic','numeric/_index.py')],[],['numeric.index functions'])
p('P27','Every spelling of a measurement means the same values and unit',
 'Every accepted way to write a measurement (numbers, a number and unit, nested pairs, strings with units, sequences of measurements, existing measured objects) yields exactly the written values in the written unit, unitless when none is given; mixtures that do not share one unit, and things that are not measurements, are refused. Measuring the result again gives an equal measurement.',
 ['inputs'],
 'all nestings of values and units up to a bound',
 'tests sample the accepted spellings; equivalence is over all of them.',
 ['quantity/_functions.py','quantity/_measurement.py','quantity/__init__.py','measured/_factories.py'],
 [('parser','quantity/_functions.py: parse/measure')],[],['quantity.measure','quantity.parse'])
p('P28','Numpy functions on arrays act on the values and keep units and axes right',
 'Numpy reductions, cumulative functions, transposition, squeezing, integration and element-wise functions applied to a physical or real array give what numpy gives on its values along the same axis or axes, with the unit the operation implies and with exactly the axes that remain. Functions that need unitless or equal-unit arguments refuse others, and no argument is modified.',
 ['inputs'],
 'every supported function, axis argument, keepdims flag and shape up to three dimensions, with scaled and subscripted arrays',
 'tests check one axis of one array per function; the rule spans functions, axes, flags and prior history of the array.',
 ['physical/_operations.py','physical/_array.py','real/_array.py','numeric/_operations.py'],
 [('numpy function/ufunc protocol','physical/_operations.py, real/_array.py')],[],['numpy.<function>(array, ...)'])
p('P29','Views of data files report exactly what the file holds',
 'A view of a data file shows exactly the known arrays, scalars and axes which the file holds when it is opened: their values, dimensions and sizes, and their units where the file has them, neither more nor less; array data can be subscripted like the file, and a scalar keeps its kind of number. This holds whatever other files were opened or what the same path held before: opening a file which was replaced shows the new contents, in views and in observed quantities, while a view which was read keeps showing its own. A file which does not exist is refused, and a file whose suffix tells no format can be read only with a hint.',
 ['inputs','histories'],
 'every history of writing, replacing, removing, opening and observing files, with arbitrary contents',
 'tests open one prepared file per format; views are cached by path, so what they show can depend on the session history.',
 ['datafile/_viewers.py','datafile/_core.py','paths.py','etc.py'],
 [('View/NetCDFViewer','datafile/_viewers.py'),('PathSet','paths.py')],[],['datafile.view','observable.quantities'])
p('P30','Interfaces to a data file report its quantities in the chosen metric system',
 'The axes, arrays and grid interfaces of a data file, and the axes, position and named quantities of an observer, report exactly the quantities which the file holds, with the file\'s values converted to the metric system the interface was made for, whatever units the file gives them in, and with the dimensions and axes of the file. What is listed is what can be asked for; a name which is not known is refused with KeyError; whether the file holds a distribution or a flux is reported truthfully. Each answer depends on the file, the system and the name only, never on what was asked before.',
 ['inputs','histories'],
 'every type and content of observer file, every system, every unit the file may use for each variable, and every order of requests',
 'tests read one prepared file in one set of units; conversion, caching and naming span interfaces, systems, units and order of use.',
 ['datafile/_interfaces.py','datafile/_reference.py','eprem.py','observable/_interfaces.py'],
 [('Axes/Arrays/Grid','datafile/_interfaces.py'),('Observer/Stream/Point','eprem.py')],[],['datafile.axes','datafile.arrays','datafile.grid','Stream/Point attributes and subscription'])
p('P31','A plot shows the array in the requested unit over the requested axis',
 'Plotting an array which is logically one-dimensional shows exactly one line: the values of the array, in the unit that is asked for, over its one dimension that is not singular or over the values or the named axis that are given. Labels name what is shown, with the unit in which it is shown, unless the user gives labels, which are kept; formats, limits and scales reach the plot. It goes to the given path or to the screen. Arrays of another shape, incompatible units, unknown axes, values of another length or kind and unknown keywords are refused. Nothing of an earlier plot, whether it succeeded or failed, appears in a later one, no figure remains open, and the array is not modified.',
 ['inputs','histories'],
 'every array, history of subscription, scaling and conversion, and every combination and order of plot requests',
 'there are no tests of plotting at all; labels, units and shared figure state depend on keyword combinations and on earlier (failed) plots.',
 ['physical/_array.py'],
 [('Array.plot','physical/_array.py')],[('figure','the current matplotlib figure, which plots share','physical/_array.py')],['Array.plot(...)'])
p('P32','Guarded calls, objects that exist once, and type comparisons keep their rules',
 'A guarded call returns what the function returns; if it raises, the value of the nearest registered type from which the exception derives replaces the result (or the given arguments do, if that was asked for), whatever the value is, and an exception of any other type propagates unchanged. A converted exception is replaced by the requested value or exception (chained, with its message) if it derives from the expected type, and only then. A singleton class has exactly one object, a parent or child class its own; a class of an instance set has one object per key, shared with no other class or key; a sentinel exists once per name whatever its content, equals its content and itself but no other sentinel, and is false only for nothing or false. The widest type of two objects is the one from which the other derives, or else the given base, in either order. Joined strings read as a list in words for every length; only nothing and what holds nothing is null.',
 ['inputs','histories'],
 'every history of registrations and calls, of making objects, and every pair of types of a hierarchy with multiple bases',
 'tests use one exception type and one class at a time; derived types, array values, child classes, equal keys of two classes and repeated names need combinations and histories.',
 ['exceptions.py','etc.py'],
 [('Wrapper.catch/compute','exceptions.py'),('convert','exceptions.py'),('Singleton/InstanceSet','etc.py'),('sentinel','etc.py'),('widest/allisinstance/join/isnull','etc.py')],
 [('substitutions','registered types and values of a guard','exceptions.py'),('instances','objects that exist once','etc.py'),('sentinels','known sentinels','etc.py')],['exceptions.Wrapper','exceptions.convert','etc.Singleton','etc.InstanceSet','etc.sentinel','etc.widest','etc.join','etc.isnull'])
p('P33','Requests for paths and lines of text find what exists, in the given order',
 'A search returns the entry of the first place that holds it, in the given order and then in the current directory, and nothing if none does; absent places and strict requests for absent paths are refused with an error that names the path; places that are files, and dangling links, hold nothing. A template search returns the first existing result of its templates in the given directory, or in the directory that is current at the time of the call. An element is located where the environment says, or else in the given place, or else by its bare name. A local path has no parents. Text loses what follows the first of any comment marks and the blanks around it, whatever the order of the marks; the pairs on the matching lines of a file are found, the last of several with one key.',
 ['inputs','histories','configurations'],
 'every history of entries that come and go, of links, places and current directories, and every spelling of a path',
 'no test reaches these functions directly; what they find depends on the state of the file system, the current directory and the spelling of paths.',
 ['paths.py'],
 [('search/find_file_by_template/locate/fullpath/localize','paths.py'),('TextFile.extract','paths.py'),('strip_inline_comments','paths.py')],
 [('directory tree','what exists, and the current directory','paths.py')],['paths.search','paths.find_file_by_template','paths.locate','paths.fullpath','paths.localize','paths.TextFile','paths.strip_inline_comments','paths.file_lines'])
out=pathlib.Path(__file__).resolve().parent.parent/'properties.jsonl'
out.write_text('\n'.join(json.dumps(x) for x in P)+'\n')
