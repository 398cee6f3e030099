# extends FIXED: (property, commit subject, what failed)  and KNOWN: (property, [key patterns], what fails)
FIXED += [
 ('P07', 'fix: accept denominators of more than one digit in symbolic operands', "'a^1/12' was read as 2 a"),
 ('P07', 'fix: keep zero coefficients and exponents of symbolic operands', "'a^0' was read as a"),
 ('P07', 'fix: keep rational constants exact in symbolic expressions', "'1/3 * 3 a' did not reduce to a"),
 ('P07', "fix: parse 'sqrt' after an explicit operator", "'a * sqrt(b)' was read as a * b * <a variable called sqrt>"),
 ('P07', 'fix: raise symbolic expressions to zero and to exact rational powers', 'expression ** 0 raised TypeError; ** Fraction(1, 3) was inexact'),
 ('P07', 'fix: raise expressions to the exact rational value of a float', 'expression(1/3 a) ** -1.0 was inexact'),
 ('P07', 'fix: parse small numbers in exponential notation as constants', "'1e-30 a' was read as -30 a e"),
 ('P08', 'fix: make symbolic hashes consistent with equality, and reject indices below range', 'equal expressions with different hashes; expression[-len-1] returned the last term'),
 ('P08', 'fix: keep coefficients when updating the bases of an expression', 'Expression.apply dropped the coefficient'),
]
FIXED += [
 ('P09', 'fix: convert compound and dimensionless units by the ratios of all terms', "conversion('km km', 'm cm') gave 100, 'deg s^-1' -> 'rad s^-1' gave 1, keV -> kJ was refused, others leaked ValueError"),
 ('P09', 'fix: correct electromagnetic conversion factors between mks and cgs', 'C -> statC, A -> statA, V -> statV, ohm, H, H / m, and F / m had wrong factors'),
 ('P09', 'fix: do not convert permeability to permittivity via dimensionless units', "conversion('H / m', 'F / m') gave 7.05e-06"),
 ('P09', 'fix: convert compound units and full names however they are written', "'F / m' converted to '1' but 'F m^-1' did not; names with spaces raised UnitParsingError"),
 ('P09', 'fix: keep the symbol of candela when centiday is in use', "after 'centiday' was used, 'cd' meant centiday: 'h' -> 'cd' converted"),
 ('P09', 'fix: combine equal units given by name and by symbol', "unit('joule C coulomb^-1') was not unit('J'), and whether a conversion existed depended on the spelling"),
 ('P10', 'fix: correct the units and dimensions of permittivity, illuminance, and displacement', 'the units listed for these quantities did not have the dimension listed for them'),
 ('P10', 'fix: accept unit symbols with non-ASCII letters', "unit('μm') and unit('Ω m') were refused although they are listed symbols"),
 ('P10', 'fix: refuse units with numerical coefficients, and accept full names of units', "unit('10 m') was the metre, unit('m s-1') was 'm s', 'astronomical unit' was accepted or not depending on history"),
 ('P11', 'fix: correct the first radiation constant in cgs', 'c1 was 3.7418e-16 erg cm^2 / s, 1e11 times too small'),
]
KNOWN += [
 ('P09', ['ohm:*'], "the ohm has the dimension of the volt (the table of quantities gives impedance the mks dimension M L^2 / (T^3 I) instead of M L^2 / (T^3 I^2)); the existing tests pin it, so V and ohm convert into each other with factor 1"),
 ('P09', ['seimens:*'], "the factor from seimens to cm / s is c^2 * 1e-5 instead of c^2 * 1e-9 (c in cm/s); pinned by the existing tests"),
]
KNOWN += [
 ('P09', ['centiday -> *', '* -> centiday', 'system:centiday -> *'], "the symbol of the centiday is that of the candela: unit('centiday') is the candela, so unit('centiday') >> 'hour' is refused although conversion('centiday', 'hour') is 0.24"),
 ('P10', ['spellings:*centiday*', 'normalize:centiday in *'], "the symbol of the centiday is that of the candela: unit('centiday') is the candela"),
]
FIXED += [
 ('P10', 'fix: refuse unknown quantities with KeyError instead of recursing', "metric.UNITS['no such quantity'] raised RecursionError"),
 ('P10', 'fix: normalize units of quantities with compound names', "normalize('G', 'mks', quantity='magnetic field') raised RecursionError"),
]
KNOWN += [
 ('P10', ['ohm:*', 'quantity:impedance in mks*', 'quantity:potential in mks unit of dimension', 'quantity:resistance in mks*', 'quantity:resistivity in mks*'], "the table of quantities gives impedance the mks dimension M L^2 / (T^3 I) instead of M L^2 / (T^3 I^2), and with it the ohm, resistance, and resistivity; pinned by the existing tests"),
]
FIXED += [
 ('P12', 'fix: keep the scale when converting the unit of a converted array', "array.withunit('cm').withunit('km') applied only the last factor, and transpose after withunit lost it"),
 ('P15', 'fix: subscript arrays by exactly the indices given on each axis', 'an integer with a stepped, over-long, negative or empty slice raised ValueError; a list of indices on one axis replaced slices on the others by the whole axis; missing trailing indices and numpy index arrays failed'),
 ('P15', 'fix: support array-like subscripts on every kind of axis', 'axis[numpy.array([0, 1])] raised ValueError; Points built from range or list could not be subscripted by a list'),
 ('P25', 'fix: permute the dimensions of one-dimensional arrays', "transpose(0) and permute('time') of a one-dimensional array raised"),
 ('P14', 'fix: align singular dimensions in products of arrays', 'a * b raised IndexError when a shared dimension was singular in one of the operands and another dimension was not shared; otherwise the axis of the result could have length 1 where its data had more'),
]
FIXED += [
 ('P13', 'fix: keep units when the left operand of an operator is a numpy object', 'numpy.float64(2) * scalar, ndarray - array, numpy.float64(1) < scalar, ... returned raw numbers or arrays without the unit'),
 ('P13', 'fix: convert scalars to complex numbers', 'complex(scalar) raised TypeError'),
 ('P14', 'fix: align dimensions when raising an array to an array', 'array ** array combined elements by position, whatever the dimensions, and failed on singular dimensions'),
 ('P14', 'fix: find single-valued axes in every kind of axis', 'a singular axis of points or symbols was not found in the full axis, so sums with the singular array were refused (or accepted by accident of positions)'),
 ('P14', 'fix: compare the units of coordinates when comparing axes', 'arrays whose coordinates were equal numbers in different units could be added'),
]
FIXED += [
 ('P16', 'fix: find bounded nearest values in unordered and multidimensional arrays', "index(x, closest=...) on a descending axis returned an entry on the wrong side, and -1 beyond the ends"),
 ('P16', 'fix: find coordinates within rounding error of the ends of an axis', "index((3.0, 'mm')) was refused on an axis [0.3] cm"),
 ('P25', 'fix: subtract dimensions from other collections of names', "['x', 'y'] - dimensions and dimensions ^ list raised TypeError (raise NotImplemented)"),
 ('P25', 'fix: raise an exception for every mismatch between dimensions', 'mismatch passed over sets of which neither contains the other, and had its two messages exchanged'),
 ('P25', 'fix: refuse to permute dimensions by repeated indices', "dimensions('a', 'b').permute(0, 1, 1) was accepted"),
 ('P25', 'fix: insert an axis after all others when given its index', "axes.insert('y', y, index=len(axes)) returned the axes without y"),
]
FIXED += [
 ('P26', 'fix: accept index values in array subscripts', "array[axis.index('B')] raised ValueError"),
 ('P26', 'fix: create index sequences from index values', 'index.sequence([index.value(1)]) raised TypeError, and with it subscripts of physical arrays by index values'),
 ('P26', 'fix: refuse too many indices before a trailing ellipsis', 'expand(2, (0, 0, 0, ...)) gave three indices for two dimensions'),
 ('P26', 'fix: raise indices to sequences of powers', 'value ** sequence raised ValueError about truth values'),
 ('P26', 'fix: restrict indices along any axis of a two-dimensional array', 'restrict(..., axis=0) of a two-dimensional array failed or gave the bounds of another axis'),
 ('P26', 'fix: refuse to create an index value from more than one index', 'index.value([3, 4]) gave 3'),
 ('P26', 'fix: create indices from index values', 'index.value(index.value(1)) raised TypeError'),
]
FIXED += [
 ('P28', 'fix: support every form of the axis argument in reductions of arrays', 'numpy.min and numpy.max failed for physical and real arrays; axis given by position, as a tuple or as None, keepdims, and the only axis of a vector failed or gave wrong dimensions'),
 ('P28', 'fix: accept a positional or null axis in numpy.cumsum of an array', 'numpy.cumsum(array, 0) and numpy.cumsum(array, axis=None) failed'),
 ('P28', 'fix: remove only the named axes in numpy.squeeze of an array', 'numpy.squeeze(array, axis=0) failed if other axes were singular'),
 ('P28', 'fix: accept positional axes in numpy.transpose of an array', 'numpy.transpose(array, (1, 0)) failed'),
 ('P28', 'fix: account for units in numpy.trapz of a physical object', 'the unit of x or dx was lost or caused an error; the integral of a vector or tensor lost its unit'),
 ('P28', 'fix: accept coordinates in numpy.trapz of a real array', 'numpy.trapz(array, x=...) failed'),
 ('P28', 'fix: preserve the type of a vector or tensor in numpy.gradient', 'the gradient of a vector over an array of coordinates was an array with invented axes'),
 ('P24', 'fix: round charges to the nearest integer when naming species', 'elements(mass=1, charge=0.9999999999999998) gave the neutral atom'),
 ('P24', 'fix: identify elements by the nearest mass', 'the masses of Ca, Co and Po gave Ar, Ni and Bi'),
]
KNOWN += [
 ('P28', ['numpy.transpose with axes on physical', 'numpy.transpose with axes on real'], "numpy.transpose(array, axes=...) permutes the names but always reverses the data; pinned by the existing tests (array.transpose(...) is right)"),
 ('P28', ['trigonometry of degrees on *'], "numpy.sin, cos and tan of a quantity in degrees take its number as radians; pinned by the existing tests"),
]
FIXED += [
 ('P22', 'fix: refuse an observer ID that matches files with different prefixes', 'a directory with obs000001.nc and p_obs000001.nc: asking for observer 1 gave one of them silently'),
 ('P22', 'fix: look for every kind of observer file in observer()', 'eprem.Dataset.observer found stream files only'),
 ('P22', 'fix: remove only the prefix from the name of an observer file', 'the file p_obsbobs.nc was listed under an ID without its trailing letters'),
 ('P22', 'fix: look for a bare configuration-file path in the dataset directory', "eprem.dataset(dir, config='run.cfg') did not find dir/run.cfg from elsewhere"),
 ('P22', 'fix: ignore files without a stream number when listing streams', 'a stray obs.nc or obs_backup.nc made Dataset.streams fail'),
 ('P20', 'fix: evaluate default values defined by a literal zero', 'readDouble("x", config.y + 0, ...) could not be resolved'),
 ('P20', 'fix: evaluate default values that sum to zero', 'a default config.x - config.y with equal values could not be resolved'),
 ('P20', 'fix: compute default values from the current values of other parameters', 'with simStartTime = 5 in the configuration file, simStopTime and epCalcStartTime followed the default start time'),
 ('P20', 'fix: evaluate default arrays defined by a constant', 'Scalar_t default_obsR[1] = {RSAU} could not be resolved'),
 ('P21', 'fix: skip indented comments and lines of spaces in configuration files', 'such lines raised ValueError'),
 ('P21', 'fix: accept configuration-file values that contain an equals sign', 'a = x=y raised ValueError'),
 ('P21', 'fix: compare a configuration file to one given by its path', 'ConfigFile.compare(path) raised TypeError'),
 ('P21', 'fix: compute the symmetric difference of configuration files', 'ConfigFile.diff and compare reported every pair, equal or not'),
 ('P21', 'fix: do not print an empty table for each compared parameter', 'configfile -c printed each name twice, once over an empty table'),
 ('P21', 'fix: compare configuration files with the default values in the given source', 'configfile -c --source took the defaults from the package'),
 ('P21', 'fix: show empty values when comparing configuration files', 'an empty value was shown as (default)'),
 ('P21', 'fix: compare configuration files that do not differ', 'configfile -c --diff raised StopIteration when nothing differs'),
 ('P21', 'fix: do not write parameters without a default value', 'configfile -g wrote numNodesPerStream=None, which reads back as a string'),
 ('P21', 'fix: write default arrays as lists', 'configfile -g wrote mass=1.0, which reads back as a string'),
]
FIXED += [
 ('P17', 'fix: index shells like any other dimension', 'a negative shell raised TypeError, some shells out of range gave every shell, and a float or a wrong unit gave shell 0'),
 ('P17', 'fix: let an empty index select no values of an observable', 'an empty list of positions gave every value'),
 ('P17', 'fix: accept a collection of symbols in an observable index', 'f[..., ["H+", "He++"], ...] raised AxisTypeError'),
 ('P17', 'fix: accept a list of symbols as the index of a one-dimensional observable', 'mass[["H+", "He++"]] was refused'),
 ('P17', 'fix: share one energy grid among several species', 'with several species the energy axis had one value per species, so that energies were cut off'),
 ('P17', 'fix: give requested coordinates their own axis', 'time[(0.1, "day")] had the axis of the whole dataset'),
 ('P19', 'fix: locate a radius on the grid separately at each time', 'a radius equal to a grid value at some time raised AxisError or gave other shells'),
 ('P19', 'fix: interpolate to any radius and time within the grid', 'the ends of a grid were refused among off-grid values; a radius outside the shells at a time that was not asked for was refused; a time and a radius together were located on the wrong grid'),
 ('P19', 'fix: accept a target radius in any unit of length', 'a radius in cm was refused in the mks system'),
]
FIXED += [
 ('P18', 'fix: raise observables to powers', 'powers of observables, and every combination written as text, raised TypeError'),
 ('P18', 'fix: restrict the axes of the flow angle like its values', 'angle had the axes of the whole dataset whatever the indices, so that upara, ar and angle disagreed or failed'),
 ('P18', 'fix: provide the defined observables ubmag and udotb', 'two defined observables raised AttributeError'),
 ('P18', 'fix: compute rigidity and mean free path at energies between grid values', 'an energy off the grid gave the values at the grid energies around it'),
 ('P18', 'fix: compute the acceleration rate at any index of a shell', 'a single shell gave all the shells, and a negative one raised'),
 ('P18', 'fix: combine arrays that have an empty dimension', 'arithmetic on an empty selection raised IndexError'),
 ('P18', 'fix: compute integral flux above the given minimum energies', 'every request for integral flux raised KeyError'),
]
FIXED += [
 ('P23', 'fix: convert the argument of a Wrapper to a string', 'str(Wrapper([1, 2])) raised TypeError'),
 ('P23', 'fix: count strings as single elements when computing the size of a collection', 'size of a list of strings raised TypeError'),
 ('P23', 'fix: let isshapelike accept arrays', 'isshapelike(numpy.array([2, 3])) raised ValueError'),
 ('P23', 'fix: judge the ambiguity of a table request by the entries that satisfy it', 'a request satisfied by exactly one record was refused as ambiguous when the value of its last key was frequent, and requests without a match as ambiguous'),
 ('P23', 'fix: allow tables without entries', 'the empty table raised IndexError'),
 ('P23', 'fix: do not let the default key of a registered object replace another', 'an object registered under its own name with a number silently replaced one registered under that key'),
 ('P27', 'fix: use all values of measurements that contain numerical strings', '([1, 2], 5, "m") lost 5, (["1", "2"], "m") kept text, ([], "m") was an empty measurement, numeric strings with a Unit were refused'),
 ('P27', 'fix: refuse to distribute different units over measured values', 'parse([(1, "m"), (2, "cm")], distribute=True) mixed units'),
 ('P27', 'fix: combine measurements with equal units', '[(1, "m / s"), (2, "m s^-1")] was refused'),
 ('P27', 'fix: let ismeasurable agree with what measure accepts', 'ismeasurable was true of ([1, 2], 5, "m") and ((),), and false of measurements'),
 ('P27', 'fix: do not drop arguments that follow a measured object', 'measure(x, y) gave x'),
 ('P27', 'fix: keep the unit of measured objects when creating scalars, vectors, and tensors', 'scalars, vectors and tensors made from measured values, sequences or vectors were unitless'),
 ('P27', 'fix: create sequences from scalars', 'measured sequences and measurements made from scalars had no elements'),
]
FIXED += [
 ('P07', 'fix: keep a variable in front of a grouped operand', "OperandFactory().create('a(b)') dropped the leading variable"),
 ('P25', 'fix: refuse to insert an axis at a place which does not exist', "axes.insert(name, axis, index=-1), or before or after a dimension which is not there, silently returned the same axes without the new one"),
]
KNOWN += [
 ('P25', ['axes:insert on the other side'], "axes.insert(name, axis, before=d) inserts after d, and after=d inserts before it; pinned by the existing tests"),
]
FIXED += [
 ('P16', 'fix: give axes selected by slices, masks, and lists the positions they were selected from', "axis[-2:].indices had n + 2 entries, axis[::-1].indices none; symbols[[1, 3]].indices was [0, 1]; masks were refused by points and coordinates, and selected wrong symbols"),
]
FIXED += [
 ('P29', 'fix: open a data file again when it has changed or another format is hinted at', 'a file replaced by another in one session kept showing its first contents, and one first opened without a hint could never be read'),
]
FIXED += [('P30','fix: convert times, lengths, and speeds in data files as such when their units are ambiguous',"datafile.arrays(path).r of a file with R in 'cm' (time in 's', Vr in 'cm s^-1') raised KeyError('mks')"),
          ('P09','fix: report the ambiguity when a conversion to a metric system is ambiguous',"physical.array([1.], unit='cm').withunit('mks') raised KeyError('mks') instead of UnitConversionError")]
FIXED += [('P09','fix: judge the ambiguity of a conversion by the unit, however it is spelled',"metric.conversion('centimeter', 'mks') gave 0.01 although conversion('cm', 'mks') is refused as ambiguous")]
FIXED += [('P09','fix: find defined conversions of compound units by their unit, however it is spelled',"metric.conversion('farad m^-1', 'cgs') was refused although conversion('F m^-1', 'cgs') is 1.129e11")]
FIXED += [('P31','fix: label plotted values with the unit in which they are plotted',"array.plot(unit='m') of an array in km plotted values in m with the label [km]"),
          ('P31','fix: keep the labels that the user gives to a plot',"array.plot(ylabel='something') ignored the label; so did xlabel over points, symbols and named axes"),
          ('P31','fix: allow plotting an array over given coordinates',"array.plot(x=physical.coordinates(...)) raised UnboundLocalError"),
          ('P31','fix: close the figure when plotting an array fails',"a plot which failed left its figure open, so that its labels and limits appeared in the next plot")]
FIXED += [('P20', 'fix: add all terms of a default value, and read exponents in sums and products', 'a default of three terms lost the third; numbers with signed exponents in sums, differences and products were refused')]
FIXED += [('P32','fix: substitute values for exceptions of derived types, and arrays as values','a guarded call that raised an exception derived from a registered type raised KeyError; an array as the value raised ValueError'),
          ('P32','fix: look up existing sentinels by name',"sentinel('x', 1) made twice gave two objects; a list as content was refused; a content equal to the name of another sentinel gave that one"),
          ('P32','fix: do not return the singleton of a parent class','making an object of a class derived from a singleton that exists returned the object of the parent'),
          ('P32','fix: do not share the instances of different classes','two classes of one instance set with equal keys shared an object'),
          ('P32','fix: join zero strings','joining no strings raised IndexError')]
FIXED += [('P33','fix: locate names that are not on the system path','locating a name that exists nowhere raised TypeError instead of giving the name'),
          ('P33','fix: search for a template in the current directory at the time of the call','the default directory was the one that was current at the time of import')]
