"""The properties, as written to properties.jsonl and MANIFEST.json."""

PROPERTIES = [
    dict(
        id='P01',
        title='Symbolic expressions evaluate to the algebra they spell',
        statement=(
            'Parsing a string of numbers, variables, powers, groups, square '
            'roots, products and quotients yields the expression that '
            'ordinary algebra assigns to it, however it is spaced or '
            'delimited. Products, quotients and powers of expressions equal '
            'those of their values, equality is algebraic equality, the text '
            'form of an expression parses back to it, and malformed or '
            'ambiguous text is rejected.'),
        over=['inputs', 'programs'],
        quantifier='every expression string and every sequence of algebraic '
                   'operations on expressions',
        why='The tests parse a fixed list of strings; the grammar nests and '
            'its exponents and coefficients are unbounded.',
        mechanism=[
            ('parser', 'src/eprempy/symbolic/_parser.py'),
            ('terms and reduction', 'src/eprempy/symbolic/_operand.py'),
            ('expression algebra', 'src/eprempy/symbolic/_expression.py')],
        observe=['symbolic.expression', 'symbolic.term', 'str(expression)'],
        technique='generated syntax trees against an exact-rational evaluator',
        note='Random search over nested expressions; each is compared with an '
             'independent evaluator, so any disagreement it reaches is found.',
    ),
    dict(
        id='P02',
        title='Unit conversions have the right factor or fail cleanly',
        statement=(
            'Converting between two units yields the ratio of their sizes for '
            'every prefix, power, spelling and order of terms, including '
            'conversion to the unit that a metric system assigns to a '
            'quantity. Factors are reflexive, invert, chain and scale with '
            'powers, and the reduction of a unit to base units has its size. '
            'Units of different dimension raise a unit-conversion '
            'error (or yield nothing when errors are off), never a number.'),
        over=['inputs', 'histories'],
        quantifier='all pairs of compound units built from the named units '
                   'and prefixes, after any history of earlier conversions',
        why='The tests fix about a hundred pairs; prefixes, powers and '
            'orders of terms combine without bound and results are cached.',
        mechanism=[
            ('conversion search', 'src/eprempy/metric/_conversions.py'),
            ('unit tables', 'src/eprempy/metric/_reference.py'),
            ('named units', 'src/eprempy/metric/_defined.py')],
        observe=['metric.conversion', 'Unit >> Unit', 'Quantity.convert().to()',
                 'metric.ratio', 'metric.NamedUnit'],
        technique='generated unit pairs against an independent table of SI sizes',
        note='Random search against an independent model of units; the values '
             'of non-SI constants are taken from the documentation.',
    ),
    dict(
        id='P03',
        title='Units, dimensions, quantities and metric systems obey their laws',
        statement=(
            'Every spelling of a unit is the same unit and its text spells it '
            'again; products, quotients and powers of units have the product, '
            'quotient and power of their sizes and dimensions. Equality, '
            'equivalence and consistency are reflexive and symmetric and '
            'never relate units of different dimension. Normalizing to a '
            'metric system is idempotent, keeps the dimension, and gives that '
            "system's unit for each quantity. Compound quantities combine "
            'units and dimensions of their parts. Unknown or numerical units '
            'are rejected.'),
        over=['inputs', 'programs'],
        quantifier='all compound units of the named units and prefixes, all '
                   'products of powers of named quantities, both systems',
        why='The tests sample a few units per law; the laws range over '
            'combinations of prefixes, powers, spellings and systems.',
        mechanism=[
            ('unit algebra', 'src/eprempy/metric/_units.py'),
            ('dimensions', 'src/eprempy/metric/_dimensions.py'),
            ('metric systems', 'src/eprempy/metric/_systems.py'),
            ('canonical tables', 'src/eprempy/metric/_reference.py')],
        observe=['metric.unit', 'metric.dimension', 'metric.quantity',
                 'metric.system', 'metric.UNITS', 'metric.DIMENSIONS'],
        technique='generated unit algebra against an independent model of '
                  'SI sizes and dimensions',
        note='Random search against an independent table; the ohm is a known '
             'finding pinned by the existing tests.',
    ),
    dict(
        id='P05',
        title='Measurements keep their amount through parsing and conversion',
        statement=(
            'Every documented measurable form (numbers, numeric strings, flat '
            'lists, value lists with a unit, nested collections) parses to '
            'its numbers in order and its unit; empty, ambiguous and '
            'inconsistent input raises the documented exception. Converting '
            'a measured object of any kind (value, sequence, measurement, '
            'scalar, vector, tensor, array, coordinates) preserves number '
            'times unit through every chain of conversions and indexing, '
            'leaves the original unchanged, and refuses inconsistent units '
            'with ValueError.'),
        over=['inputs', 'histories'],
        quantifier='all nested measurable forms; all chains of consistent '
                   'units over all kinds of measured objects',
        why='The tests convert single objects once; forms nest without bound '
            'and errors show up only in the second conversion or after '
            'indexing.',
        mechanism=[
            ('parsing', 'src/eprempy/quantity/_functions.py'),
            ('conversion contexts', 'src/eprempy/measured/_context.py'),
            ('converters', 'src/eprempy/measured/_convert.py'),
            ('array conversion', 'src/eprempy/physical/_array.py')],
        observe=['quantity.parse', 'quantity.measure', 'withunit', 'float',
                 'indexing'],
        technique='grammar-based generation of measurable forms and '
                  'conversion chains with the invariant value times unit size',
        note='Random search; the unit sizes come from an independent table.',
    ),
    dict(
        id='P06',
        title='Physical arithmetic and functions keep track of units',
        statement=(
            'Products, quotients, powers, roots, signs and sums of physical '
            'scalars, vectors, tensors and arrays have the value and the '
            'dimension of the same expression on their amounts. Sums, '
            'differences and orderings of objects in different units are '
            'refused; equality requires equal units. numpy reductions and '
            'gradients keep or derive the unit and agree with numpy; '
            'logarithms refuse units, trigonometric functions need angles.'),
        over=['inputs', 'programs'],
        quantifier='all expression trees over physical objects of every kind, '
                   'shape and unit',
        why='The tests apply one operator to fixed operands; unit and value '
            'errors appear in compositions and in mixed kinds or units.',
        mechanism=[
            ('operators and numpy functions',
             'src/eprempy/physical/_operations.py'),
            ('scalar', 'src/eprempy/physical/_scalar.py'),
            ('array', 'src/eprempy/physical/_array.py'),
            ('factories', 'src/eprempy/physical/_object_factories.py')],
        observe=['Python operators', 'numpy functions', 'unit', 'float',
                 'numpy.array'],
        technique='generated expression trees evaluated against numpy on SI '
                  'values and an independent dimension algebra',
        note='Random search to bounded tree size; degrees in trigonometric '
             'functions are a known finding.',
    ),
    dict(
        id='P07',
        title='Arrays combine by the names of their dimensions',
        statement=(
            'The product or quotient of physical or real arrays has the union '
            'of their dimensions, and each value combines the values at the '
            'same coordinates, whichever dimensions each operand has and '
            'wherever one of them holds a single coordinate. Axes follow '
            'their data, a full axis winning over a singular one. Sums need '
            'the same dimensions and unit and otherwise are refused; nothing '
            'is ever combined out of alignment. Arrays are equal if and only '
            'if they have the same data, unit, dimensions and coordinates.'),
        over=['inputs'],
        quantifier='all pairs and triples of arrays over a pool of named axes '
                   'of every length and kind',
        why='The tests combine a handful of shapes; broadcasting by name has '
            'a combinatorial number of cases.',
        mechanism=[
            ('array remeshing', 'src/eprempy/numeric/_array.py'),
            ('physical operations', 'src/eprempy/physical/_operations.py'),
            ('real operations', 'src/eprempy/real/_array.py'),
            ('axes', 'src/eprempy/physical/_axes.py')],
        observe=['array * array', 'array / array', 'array + array',
                 'dimensions', 'axes', 'shapemap'],
        technique='generated operands compared with numpy arrays aligned by '
                  'name',
        note='Random search over up to four dimensions of length up to four.',
    ),
    dict(
        id='P08',
        title='Indexing, transposing and reducing arrays agree with numpy',
        statement=(
            'A real or physical array, indexed by any mixture of integers, '
            'slices, lists, arrays and ellipses, transposed by name or '
            'number, and converted between units, in any sequence, holds the '
            'data that orthogonal numpy indexing gives, with dimension names, '
            'shape and axis values in step, and leaves the source unchanged. '
            'Reductions, squeezing and integrals along an axis agree with '
            'numpy. Indices out of range raise IndexError.'),
        over=['inputs', 'histories'],
        quantifier='all arrays of up to four dimensions and all sequences of '
                   'up to three index, transpose and convert steps',
        why='The tests index fixed arrays once; axis and data can come apart '
            'in mixed indices or in the second step of a history.',
        mechanism=[
            ('index normalization', 'src/eprempy/numeric/_index.py'),
            ('lazy array access', 'src/eprempy/numeric/_array.py'),
            ('physical arrays', 'src/eprempy/physical/_array.py'),
            ('axes', 'src/eprempy/physical/_axis.py')],
        observe=['array[...]', 'transpose', 'numpy reductions', 'axes',
                 'dimensions', 'shape'],
        technique='stateful generation of index/transpose/convert histories '
                  'against a numpy model',
        note='Random search; numpy.transpose with explicit axes is a known '
             'finding pinned by the existing tests.',
    ),
    dict(
        id='P09',
        title='Axes map coordinates to indices',
        statement=(
            'Every value of an integral, symbolic or measured axis is found '
            'at its own index, given in any accepted form and any consistent '
            'unit, alone or with others, whatever the order and spacing of '
            'the axis. A target that is absent is refused, or rounded to the '
            'nearest value on the requested side; inconsistent units and '
            'wrong types are refused. Slices of an axis keep its type, unit, '
            'order and values. All ways to build axes agree.'),
        over=['inputs'],
        quantifier='all axes of up to eight values in any order, all targets '
                   'on, between and beyond them',
        why='The tests look up a few targets on increasing axes.',
        mechanism=[
            ('axis lookup', 'src/eprempy/physical/_axis.py'),
            ('nearest value', 'src/eprempy/container.py'),
            ('containment', 'src/eprempy/numeric/_data.py'),
            ('axes factory', 'src/eprempy/physical/_axes.py')],
        observe=['Axis.index', 'Axis.__getitem__', 'Axis.__contains__',
                 'container.nearest', 'physical.axes'],
        technique='generated axes and targets against a linear search',
        note='Random search; targets nearly but not exactly on a value are '
             'left out.',
    ),
    dict(
        id='P10',
        title='Dimension and axis collections behave as ordered sets',
        statement=(
            'Intersection, union, difference and symmetric difference of '
            'dimensions (with dimensions, lists or tuples, on either side) '
            'have the members of the set operation and keep the order of '
            'both operands, refusing to merge conflicting orders. Ordering '
            'is inclusion and equal dimensions hash equally. Inserting, '
            'replacing, removing, extracting and permuting follow list '
            'semantics and never change the original; an edit at a location '
            'or of a name that is not there is refused. Axes compare, merge '
            'and fill by name and content.'),
        over=['inputs', 'histories'],
        quantifier='all pairs of ordered sets from a pool of names and all '
                   'short histories of edits',
        why='The tests check chosen pairs; laws hold for every pair, order '
            'and history.',
        mechanism=[
            ('dimensions', 'src/eprempy/numeric/_array.py'),
            ('axes', 'src/eprempy/physical/_axes.py'),
            ('ordered merge', 'src/eprempy/container.py')],
        observe=['numeric.dimensions', 'physical.axes', '& | - ^ < <= =='],
        technique='generated pairs and edit histories against an ordered-set '
                  'model',
        note='Random search over pools of six names.',
    ),
    dict(
        id='P16',
        title='A data file is presented as it was written',
        statement=(
            'For every EPREM data file, whatever its axis lengths, layout of '
            'the energy grid, output mode, number of species, stored units '
            'and precision, the views, arrays, axes and grid have the names, '
            'sizes, dimensions and values that the file holds, converted to '
            'the requested metric system by the exact ratio of the units. '
            'An array is the same whichever operation reads it first, and '
            'behaves as the same array in memory does. Names that the file '
            'does not have are refused.'),
        over=['inputs', 'configurations'],
        quantifier='all synthetic stream and point-observer files of the '
                   'documented layouts',
        why='The tests read one simulation (which is not even in the '
            'repository).',
        mechanism=[
            ('views', 'src/eprempy/datafile/_viewers.py'),
            ('arrays', 'src/eprempy/datafile/_interfaces.py'),
            ('axes', 'src/eprempy/datafile/_interfaces.py'),
            ('interfaces', 'src/eprempy/datafile/_interfaces.py')],
        observe=['datafile.view', 'datafile.arrays', 'datafile.axes',
                 'datafile.grid'],
        technique='generated netCDF files read back and compared with what '
                  'was written (round trip)',
        note='Random search over file layouts with up to five values per '
             'axis.',
    ),
    dict(
        id='P17',
        title='Observables are the stored data at the selected coordinates',
        statement=(
            'Observing a quantity gives, in either metric system, the values '
            'of that quantity in the data set at exactly the selected times, '
            'shells, species, energies and pitch-angle cosines (selected by '
            'index, slice, list, symbol, or measured value in any consistent '
            'unit, in any combination), with dimensions and axes to match. '
            'Aliases and unit conversions select the same physics, quantity '
            'expressions equal the same algebra on their parts, and no '
            'observation depends on what was observed before. Selections '
            'that do not exist are refused.'),
        over=['inputs', 'histories', 'configurations'],
        quantifier='all quantities of all synthetic data sets, all '
                   'selections and all sequences of observations',
        why='No passing test observes anything: those that do need '
            'simulation output that is not in the repository.',
        mechanism=[
            ('observables', 'src/eprempy/observable/_interfaces.py'),
            ('definitions', 'src/eprempy/observable/_objects.py'),
            ('quantities', 'src/eprempy/observable/_interfaces.py'),
            ('physical arrays', 'src/eprempy/physical/_array.py')],
        observe=['observable.quantities', 'Quantity.__getitem__',
                 'Quantity.withunit', 'Observation'],
        technique='generated data sets and observation histories against an '
                  'independent SI model',
        note='Random search; up to five values per axis.',
    ),
    dict(
        id='P18',
        title='Derived observables obey their physical definitions',
        statement=(
            'Every derived observable (magnitudes, parallel and perpendicular '
            'components, angles, Alfven speed, divergence, rigidity, mean '
            'free path, acceleration rate, density ratio, flux, integral '
            'flux, fluence, energy density, average energy) equals its '
            'formula evaluated on the stored fields, for each selection and '
            'metric system, and follows the scaling laws of that formula. '
            'Runtime parameters enter as configured or by default, and '
            'flux-mode and distribution-mode output agree.'),
        over=['inputs', 'configurations'],
        quantifier='all synthetic data sets, special field geometries, '
                   'parameters and energy bounds',
        why='No passing test computes a derived observable.',
        mechanism=[
            ('definitions', 'src/eprempy/observable/_objects.py'),
            ('runtime parameters', 'src/eprempy/parameter/_runtime.py'),
            ('metric systems', 'src/eprempy/metric/_systems.py')],
        observe=['observable.quantities', 'Quantity.__getitem__'],
        technique='generated data sets against independent formulas and '
                  'metamorphic relations (scaling, rotation, output mode)',
        note='Random search; tolerances allow for rounding only.',
    ),
    dict(
        id='P19',
        title='Observing between grid points interpolates linearly',
        statement=(
            'Observing at times, radii, energies or pitch-angle cosines '
            'between grid points gives the linear interpolation between the '
            'neighbouring coordinates, independent of the unit of the target '
            'and of how many targets are requested together, and the stored '
            'value at a grid point. Axes of the result hold the targets. A '
            'target outside of the grid is refused.'),
        over=['inputs'],
        quantifier='all synthetic data sets, all dimensions and combinations '
                   'of dimensions, all targets within the grid',
        why='No passing test interpolates an observable.',
        mechanism=[
            ('interpolation', 'src/eprempy/observable/_interfaces.py'),
            ('nearest value', 'src/eprempy/container.py')],
        observe=['Quantity.__getitem__', 'Observation'],
        technique='generated data sets and targets against numpy '
                  'interpolation of independent SI arrays',
        note='Random search; up to three targets per dimension.',
    ),
    dict(
        id='P13',
        title='Runtime parameters are what the configuration file sets',
        statement=(
            'A configuration file maps each key to the text of its last '
            'value, whatever its white space, blank lines and comments; '
            'comparing two files shows both values of every key. Every '
            'parameter has the value that the file sets, converted to its '
            'type and with its unit, or else its default value, by each of '
            'its names. A parameter with one value acts as that number; one '
            'with several refuses to.'),
        over=['inputs', 'configurations'],
        quantifier='all configuration files and all parameters by all names',
        why='The tests read one or two short files; spelling and '
            'combinations of settings are unbounded.',
        mechanism=[
            ('configuration files', 'src/eprempy/parameter/_config.py'),
            ('runtime parameters', 'src/eprempy/parameter/_runtime.py'),
            ('names and units', 'src/eprempy/parameter/_metadata.py'),
            ('comments', 'src/eprempy/paths.py')],
        observe=['parameter.configfile', 'parameter.interface',
                 'parameter.variable'],
        technique='generated configuration files against the settings they '
                  'were written from and an independent parameter table',
        note='Random search; up to eight settings per file.',
    ),
    dict(
        id='P14',
        title='The command line writes and compares configuration files',
        statement=(
            'The file of default values that the command line generates, '
            'from the package or from source code, sets each parameter once '
            'and reads back as the same values. The comparison of files '
            'shows each parameter, or each one that differs, with its '
            'default value and the value and unit that every file gives it. '
            'A file that does not exist is refused.'),
        over=['inputs', 'configurations', 'programs'],
        quantifier='all configuration files, source code and options',
        why='No test runs the command line.',
        mechanism=[
            ('command line', 'src/eprempy/cli.py'),
            ('arguments', 'src/eprempy/__main__.py'),
            ('configuration files', 'src/eprempy/parameter/_config.py')],
        observe=['python -m eprempy configfile', 'cli.run'],
        technique='generated requests: round trip of written files, and '
                  'printed tables parsed against a reference model',
        note='Random search; up to three files per comparison.',
    ),
    dict(
        id='P15',
        title='Default values follow the EPREM source code',
        statement=(
            'Each constant in baseTypes.h has the value of its definition, '
            'and each parameter that configuration.c reads has the type, '
            'bounds and default value of its definition, evaluated as C '
            'does, whatever the order, spacing and comments. Exported '
            'definitions describe the same values. Without source code, the '
            'values are those of the package.'),
        over=['inputs', 'programs'],
        quantifier='all headers and sources with products, quotients, '
                   'groups, roots and sums of constants and parameters',
        why='The passing tests use the packaged values only.',
        mechanism=[
            ('source files', 'src/eprempy/parameter/_src.py'),
            ('default values', 'src/eprempy/parameter/_config.py'),
            ('expressions', 'src/eprempy/symbolic/_parser.py')],
        observe=['parameter.BaseTypesH', 'parameter.ConfigurationC',
                 'parameter.defaults', 'parameter.interface(srcdir=...)'],
        technique='generated C source against an independent evaluator',
        note='Random search; up to eight constants and eight parameters.',
    ),
    dict(
        id='P20',
        title='Observers and data sets find and present the right files',
        statement=(
            'An observer presents the observables, axes, parameters and unit '
            'system of the file with its identifier in the directory, '
            'whatever else is there, and a data set contains each observer '
            'in the directory once, with the same content. Changing the '
            'metric system changes the representation and not the amount. '
            'Missing files, identifiers and configuration files are refused.'),
        over=['inputs', 'configurations'],
        quantifier='all directories of synthetic simulation output',
        why='All tests of observers need simulation output that is not in '
            'the repository.',
        mechanism=[
            ('observers and data sets', 'src/eprempy/eprem.py'),
            ('data files', 'src/eprempy/datafile/_interfaces.py'),
            ('observables', 'src/eprempy/observable/_interfaces.py')],
        observe=['eprem.stream', 'eprem.point', 'eprem.observer',
                 'eprem.dataset'],
        technique='generated directories against an independent model of '
                  'their contents',
        note='Random search; up to a few observers per directory.',
    ),
    dict(
        id='P04',
        title='Results depend on the request alone',
        statement=(
            'What a unit, quantity, conversion, constant, species, array or '
            'observable quantity is does not depend on what the process did '
            'before, on the order or repetition of requests, or on the hash '
            'seed: every request yields what it yields alone in a fresh '
            'process, or fails in the same way.'),
        over=['histories', 'schedules', 'configurations'],
        quantifier='all sets and orders of requests, and hash seeds',
        why='Caches, registries of instances and sets make results depend '
            'on history; tests run in one order with few requests.',
        mechanism=[
            ('instances of units', 'src/eprempy/metric/_defined.py'),
            ('computed conversions', 'src/eprempy/metric/_conversions.py'),
            ('cached observables', 'src/eprempy/observable/_interfaces.py'),
            ('units of systems', 'src/eprempy/metric/_systems.py')],
        observe=['metric.unit', 'metric.conversion', 'metric.quantity',
                 'physical.array', 'observable.quantities'],
        technique='metamorphic comparison of generated histories across '
                  'fresh processes and hash seeds',
        note='Random search; up to seven requests per history.',
    ),
    dict(
        id='P11',
        title='Aliased mappings give each value one set of names',
        statement=(
            'All aliases of an item lead to the same value, and iteration, '
            'length, equality, copies, merges, views and conversions to other '
            'mappings count each item once. Assignment, deletion and new '
            'aliases change the item of that name alone, and an alias that '
            'belongs to another item is refused. Groups of aliases behave as '
            'sets of disjoint sets.'),
        over=['histories', 'inputs'],
        quantifier='all partitions of names and histories of operations',
        why='Examples cover single operations on a few mappings.',
        mechanism=[('aliased mappings', 'src/eprempy/aliased.py')],
        observe=['aliased.Mapping', 'aliased.MutableMapping', 'aliased.Group',
                 'aliased.Groups'],
        technique='stateful generation against a model of sets of names',
        note='Random search; up to five items of three names each.',
    ),
    dict(
        id='P12',
        title='Containers and iteration helpers follow their definitions',
        statement=(
            'Wrapping, unwrapping, counting, pairing, distributing and '
            'slicing of sequences yield what their definitions say for any '
            'nesting. A table finds the unique entry that matches a request '
            'and reports missing or ambiguous ones; one-to-one mappings '
            'invert; connections of a graph are found exactly; an object '
            'registry returns what was registered.'),
        over=['inputs', 'histories'],
        quantifier='all nested sequences, tables, graphs and registrations',
        why='Examples cover a few shapes of input.',
        mechanism=[('containers', 'src/eprempy/container.py')],
        observe=['container.unwrap', 'container.Table', 'container.Bijection',
                 'container.Connections', 'container.ObjectRegistry'],
        technique='generated structures against direct definitions',
        note='Random search; structures with a few levels and items.',
    ),
    dict(
        id='P21',
        title='Constants and species have their accepted values and units',
        statement=(
            'Each physical constant has its accepted value in SI and in '
            'Gaussian units, and converts to any unit of its quantity like '
            'any other measurement. A species has the atomic mass and the '
            'charge that its symbol says, by symbol or by mass and charge; '
            'masses and symbols of no element are refused.'),
        over=['inputs'],
        quantifier='all constants, systems and target units; all elements '
                   'and charges',
        why='Tests compare constants to the table that defines them.',
        mechanism=[
            ('constants', 'src/eprempy/universal.py'),
            ('species', 'src/eprempy/atomic.py')],
        observe=['universal.Constants', 'universal.Constant.withunit',
                 'atomic.species', 'atomic.elements'],
        technique='generated requests against CODATA and standard atomic '
                  'weights',
        note='Every constant; elements up to neptunium, random charges.',
    ),
    dict(
        id='P22',
        title='Projects keep run directories, log and listing in agreement',
        statement=(
            'After any history of creating, running, renaming and removing '
            'runs in any branches, resetting, renaming, copying and reopening '
            'a project, from Python or the command line, the directories on '
            'disk, the listed runs and branches and the log agree, and each '
            'run holds its own configuration and output. Refused operations '
            'change nothing else, and files that lie among the runs stay as '
            'they are. A run uses the programs that its environment names, '
            'else those beside the runs, else those on the path, and the log '
            'names it only if it succeeded. A run log holds what was put '
            'there.'),
        over=['histories', 'inputs', 'faults'],
        quantifier='all histories of operations on a project or a log, with '
                   'runs that succeed or fail',
        why='No test creates a project.',
        mechanism=[
            ('projects and logs', 'src/eprempy/project.py'),
            ('the script of a project', 'src/eprempy/_project_main.py'),
            ('subcommands', 'src/eprempy/interfaces.py'),
            ('paths', 'src/eprempy/paths.py')],
        observe=['project.Interface', 'project.RunLog', 'project.cli',
                 'python PROJECT'],
        technique='stateful generation against a model of directories and '
                  'log, contained in a scratch directory',
        note='Random search; up to ten operations, three branches.',
    ),
    dict(
        id='P23',
        title='Index objects act as the integers they hold',
        statement=(
            'An index value or sequence built from integers in any accepted '
            'form (text, arrays, measurements, other indices) holds those '
            'integers and acts like them under arithmetic, comparison, '
            'hashing, shifts between limits and as an index; forms that do '
            'not hold integers are refused. A request for part of an array '
            'selects what it does in numpy after it is expanded or '
            'normalized; a range restricted to target values along an axis '
            'encloses them.'),
        over=['inputs'],
        quantifier='all integers, forms, shapes, requests and grids',
        why='Tests use a few indices; requests and forms combine freely.',
        mechanism=[
            ('index values, sequences and requests',
             'src/eprempy/numeric/_index.py')],
        observe=['numeric.index.value', 'numeric.index.sequence',
                 'Value.shift', 'numeric.index.expand',
                 'numeric.index.restrict'],
        technique='differential testing against Python integers, numpy '
                  'indexing and linear search',
        note='Random search; indices of moderate size.',
    ),
    dict(
        id='P24',
        title='Plots show an array in the unit that they name',
        statement=(
            'Plotting an array with one non-singular dimension draws one '
            'line of all its values in the requested unit, against the '
            'coordinates (or positions) of that axis or the given abscissa, '
            'labels the axes with those units unless told otherwise, passes '
            'on the options of the caller, and leaves the array alone. '
            'Arrays that cannot be drawn as a line are refused.'),
        over=['inputs'],
        quantifier='all arrays, units, abscissas and options',
        why='No test plots an array.',
        mechanism=[('plotting', 'src/eprempy/physical/_array.py')],
        observe=['physical.Array.plot', 'the lines and labels of figures'],
        technique='generated arrays whose figures are intercepted and '
                  'compared with a reference conversion',
        note='Random search; what matplotlib does with a line is trusted.',
    ),
    dict(
        id='P25',
        title='Operations leave objects alone and can be repeated',
        statement=(
            'No operation on quantities, arrays, axes, units, metrics, '
            'expressions, indices, species or aliased objects changes its '
            'operands or any other object; repeated later, it gives the same '
            'result or is refused again, whatever was done in between. Equal '
            'hashable objects have equal hashes, and equality is symmetric.'),
        over=['histories', 'inputs'],
        quantifier='all histories of operations on pools of objects',
        why='Objects share caches, data and registries; a test makes one '
            'operation on fresh objects.',
        mechanism=[
            ('arrays and axes', 'src/eprempy/physical/'),
            ('quantities', 'src/eprempy/quantity/'),
            ('units', 'src/eprempy/metric/'),
            ('expressions', 'src/eprempy/symbolic/'),
            ('aliases', 'src/eprempy/aliased.py')],
        observe=['every public operation', 'text, numbers, units, axes and '
                 'indices of all objects'],
        technique='stateful generation: snapshots of all members of a pool '
                  'after each operation, and repetition in another order',
        note='Random search; up to twenty operations on up to ten objects.',
    ),
    dict(
        id='P26',
        title='Files are found as asked, and helpers keep their contracts',
        statement=(
            'Paths are expanded and resolved as the operating system does, '
            'and a strict request for a missing path raises the documented '
            'error. A search returns the file from the first place that has '
            'it, a program comes from its environment, its place or the '
            'system path, and the lines, matches and comments of a text file '
            'are those of its text. A wrapped callable yields the value '
            'registered for the exception (or a supertype of the exception) '
            'that it raises and lets every other exception pass. A command '
            'line runs the named function with the given values. A class of '
            'unique instances has one instance for each key. The text of '
            'arguments, joined words, help and tables shows all of them, in '
            'order.'),
        over=['inputs', 'configurations'],
        quantifier='all trees of files and links, texts, exceptions, command '
                   'lines, classes and tables',
        why='The tests use a few fixed examples, and never the file system.',
        mechanism=[
            ('paths', 'src/eprempy/paths.py'),
            ('exceptions', 'src/eprempy/exceptions.py'),
            ('command line', 'src/eprempy/interfaces.py'),
            ('helpers', 'src/eprempy/etc.py'),
            ('tables', 'src/eprempy/container.py')],
        observe=['paths.*', 'exceptions.Wrapper', 'exceptions.convert',
                 'interfaces.CLI', 'etc.*', 'container.Table.show'],
        technique='generated file trees, texts, callables and command lines '
                  'against models of the operating system and of the helpers',
        note='Random search in a scratch directory.',
    ),
    dict(
        id='P27',
        title='The numeric framework applies the operations it is asked for',
        statement=(
            'Each name, alias and group of operators gives those operators, '
            'with the operands in order, forward, reversed and in place. An '
            'operator or numpy function of an object applies what its class '
            'registered for it, and no other; what a class does not support '
            'is refused. Objects are made by the factory of their own class, '
            'and strict factories never change an existing object. Values '
            'are close or equal by value, whatever their magnitude and '
            'container. An object satisfies a protocol exactly when it has '
            'its methods, and derived operations agree with those that they '
            'are derived from.'),
        over=['inputs', 'configurations', 'histories'],
        quantifier='all operators under all names, all hierarchies of up to '
                   'four classes with any registrations, all short data',
        why='The tests call each operator once and define one class.',
        mechanism=[
            ('operators', 'src/eprempy/numeric/_operations.py'),
            ('dispatch', 'src/eprempy/numeric/_mixins.py'),
            ('implementations', 'src/eprempy/numeric/_implementation.py'),
            ('factories', 'src/eprempy/numeric/_objects.py'),
            ('strict factories', 'src/eprempy/numeric/_factory.py'),
            ('predicates', 'src/eprempy/numeric/_data.py'),
            ('protocols', 'src/eprempy/base/_protocols.py'),
            ('mixins', 'src/eprempy/base/mixins.py'),
            ('variables', 'src/eprempy/real/_objects.py')],
        observe=['numeric.OPERATORS', 'numeric.METHODS', 'numeric.DUNDER',
                 'numeric.Operators', 'numeric.Functions', 'Object.spawn',
                 'numeric.factory.strict', 'numeric.data', 'base.*',
                 'real.variable'],
        technique='generated class hierarchies, registrations and operands '
                  'against plain Python and numpy',
        note='Random search.',
    ),
]
