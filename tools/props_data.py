"""Source of properties.jsonl and MANIFEST.json (run tools/mkmanifest.py)."""
F = 'modularcalculator/features/'
P = []


def p(id, title, statement, over, text, why, files, mech, observe, technique, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=files, mech=mech, observe=observe,
                  technique=technique, note=note, state=state or []))


p('N01', 'Rational arithmetic is exact',
  'The result of + - * and / over decimal literals, variables and brackets is the exact rational value of the expression, however long it is, as long as the integers each step needs fit the working size of 100 digits; division by zero is an error. Equal numbers compare, hash and display alike however they were computed, ordering comparisons agree with the exact values, arithmetic never changes its operands, and the conversions and integer operations of number objects that custom features use (int, float, complex, decimal, repr, trunc, floor, ceil, round, //, %, divmod, powers) agree with the exact value.',
  'inputs', 'every arithmetic expression over decimal literals and variables with intermediates within 98 digits; every pair of number objects',
  'tests compute a handful of short expressions; exactness must hold for every chain of operations, operand size, sign and denominator',
  ['modularcalculator/objects/number.py', F + 'numerical/basicarithmetic.py', F + 'numerical/decimalnumbers.py'],
  [('fraction arithmetic and reduction', 'objects/number.py Number.__init__/__add__/__sub__/__mul__/__truediv__/normalise')],
  ['calculate(text).results[-1].value', 'Number operators'],
  'property-based testing: random expression trees vs exact Fraction reference model',
  'Random exploration with an exact reference (fractions.Fraction); assumes the 100 digit working size is the documented bound.')

p('N02', 'Rounding and integer functions are exact',
  'floor, ceil, round, abs, \\ (floor of the quotient), % (remainder with the sign of the dividend), gcd, lcm and fact return the exact mathematical answer for every sign and size within the working size, rounding halves away from zero. An optional number of places counts digits in the notation of the argument (binary places for a binary number, percentage places for a percentage), non-integers are refused where only integers make sense, and a unit on the argument is kept.',
  'inputs', 'all rational arguments, places 0 to 20, any notation, with and without units',
  'tests have a few dozen calls with small decimals; ties, negative values, other notations and large values are unsampled',
  [F + 'numerical/numericalfunctions.py', F + 'numerical/advancedarithmetic.py', 'modularcalculator/objects/number.py'],
  [('rounding at a place of the number base', 'numericalfunctions.py apply_rounding_function'), ('remainder and integer division', 'advancedarithmetic.py')],
  ['calculate(text).results[-1]'],
  'property-based testing: rounding and integer functions vs exact Fraction reference model',
  'Random exploration against exact rational arithmetic; arguments below 60 digits.')

p('N03', 'Powers, exp and log are accurate',
  'A rational raised to an integer power is exact while it fits the working size (negative powers give the exact reciprocal, x^0 is 1 for x other than 0); a positive number raised to a fractional power, exp(x) and log(x) agree with the true real value to 40 significant digits, log(x, base) to 12. Powers of zero to a negative power, and logs of zero or negative numbers, are refused.',
  'inputs', 'all rational bases and integer exponents within the working size; positive reals for the rest',
  'the tests check a few values; the guarantee is for all bases, exponents and magnitudes',
  ['modularcalculator/objects/number.py', F + 'numerical/basicarithmetic.py', F + 'numerical/numericalfunctions.py'],
  [('power', 'number.py Number.__pow__'), ('log', 'number.py Number.log')],
  ['calculate(text).results[-1].value'],
  'property-based testing: exact powers vs Fraction, transcendental ones vs high precision decimal reference and algebraic laws',
  'Random exploration; the reference is decimal with 200 digits.')

p('N04', 'Operator precedence and associativity follow the documented table',
  'An expression written with only the brackets that the documented precedence table requires has the same value as its fully bracketed form and as the value of its tree, for any mix of the arithmetic, bitwise, comparison, string, boolean, conditional and conversion operators. Operators of one level associate to the left, prefix operators apply from the right, an operand next to a bracket or a name multiplies at its own level, and redundant brackets never change a result.',
  'inputs programs', 'all operator trees over numbers, booleans, strings and units up to depth 6',
  'tests fix around a hundred expressions; the number of operator combinations is unbounded',
  ['modularcalculator/engine.py', F + 'layout.py', 'modularcalculator/modularcalculator.py'],
  [('execution by precedence level', 'engine.py Engine.execute'), ('precedence table', 'features/layout.py op_map'), ('operator insertion', 'modularcalculator.py add_op')],
  ['calculate(text).results[-1]'],
  'property-based testing: typed expression trees printed with minimal brackets vs tree evaluation and fully bracketed print',
  'Random exploration; the precedence table is written independently of the code.')

p('N05', 'Displayed numbers are the value correctly rounded',
  'A number is displayed as its exact value rounded half away from zero to the configured number of decimal places (30 by default), in plain positional digits with no exponent, trailing zeros or "-0". Typing the displayed text back gives exactly the displayed value, displaying does not alter the value, and changing the number of places changes only what is displayed.',
  'inputs configurations', 'all rationals within the working size, decimal places 0 to 60',
  'tests look at a few dozen displays at the default precision',
  ['modularcalculator/objects/number.py', 'modularcalculator/numericalengine.py', F + 'numerical/decimalnumbers.py'],
  [('to_string', 'objects/number.py Number.to_string'), ('precision settings', 'numericalengine.py')],
  ['Number.to_string(calculator)', 'calculate(text)'],
  'property-based testing: displayed text vs independent exact rounding, and re-parse round trip',
  'Random exploration with exact integer rounding as the oracle.')

p('N06', 'Number notations denote their value and round-trip',
  'A literal in decimal, scientific, percentage, hexadecimal, octal, binary or any base from 2 to 36 denotes its positional value, in upper or lower case, positive or negative, with a fraction or without, and stands for it as an argument of any function and operator (those that work in the places or digits of a notation, or show a number, aside). Converting a number to another notation (with its function or with "as") never changes its value, the text shown in a notation parses back to the same number whenever it needs at most 30 places after the point, and is within one unit of the 30th place otherwise. The result of an operation is shown in the notation of the first of its numbers that is not plain decimal.',
  'inputs', 'all notations, all bases, all rationals representable in them within the working size',
  'tests cover one or two literals per notation',
  [F + 'numerical/bases.py', F + 'numerical/binarynumbers.py', F + 'numerical/octalnumbers.py', F + 'numerical/hexadecimalnumbers.py', F + 'numerical/arbitrarybasenumbers.py', F + 'numerical/expnumbers.py', F + 'numerical/percentagenumbers.py', F + 'numerical/numericalrepresentation.py'],
  [('base conversion', 'bases.py base_to_dec/dec_to_base'), ('E notation', 'expnumbers.py dec_to_exp'), ('notation of results', 'operators.py Operation.call/convert_numbers')],
  ['calculate(text).results[-1].value.to_string(calculator)'],
  'property-based testing: positional reference model, round trips through every notation',
  'Random exploration against an independent positional encoder/decoder.')

p('N07', 'Bitwise operators match integer bit arithmetic',
  'On integers of any size & | ^^ << and >> give the same result as two\'s complement integer arithmetic, and ~ flips exactly the bits of the width of its operand: the digits written for a binary number, the number of bits of any other. Binary results keep the width of the widest operand (leading zeros included), a negative or fractional shift is refused, and the identities of boolean algebra hold.',
  'inputs', 'integers up to 90 digits in every notation, shifts up to 200',
  'tests check one or two values per operator',
  [F + 'numerical/bitwiseoperators.py', F + 'numerical/binarynumbers.py', F + 'numerical/bases.py'],
  [('bit operators and width', 'bitwiseoperators.py')],
  ['calculate(text).results[-1]'],
  'property-based testing: bit operators vs Python integers, width model and boolean algebra laws',
  'Random exploration with Python integers as the oracle.')

p('N08', 'Number settings are obeyed',
  'With any size (digits a number is worked out with), any number of places and any of the eight rounding modes of a calculator: arithmetic on numbers whose numerators and denominators fit the size is exact, values shown plainly, as a percentage, in scientific notation or inside a text are the exact value rounded to the places by the mode, numbers shown in other bases have no more places than that and are less than a unit of the last one off, round() to a number of places follows the mode and floor and ceil do not depend on it, the settings read back as they were set, and changing them later affects how earlier results are shown but never their value.',
  'inputs configurations', 'sizes 20 to 400, places 0 to 80, eight rounding modes, all rationals within the size',
  'tests change the number of places once and never the size or the mode',
  ['modularcalculator/numericalengine.py', 'modularcalculator/objects/number.py', F + 'numerical/numericalfunctions.py', F + 'numerical/expnumbers.py', F + 'numerical/percentagenumbers.py'],
  [('settings', 'numericalengine.py'), ('rounding', 'objects/number.py'), ('display', 'objects/number.py to_string')],
  ['calculator.number_size_set', 'calculator.number_prec_set', 'calculator.number_set_rounding', 'calculate(text)', 'Number.to_string(calculator)'],
  'property-based testing: random settings and values with ties and near-ties vs an independent exact implementation of the rounding modes',
  'Random exploration with exact integers as the oracle.')

p('U01', 'Unit conversions match the real-world definitions',
  'Converting a value from a unit to any other unit of the same dimension, in any combination of powers, multiplies it by the ratio of the published definitions of the units (with the offset for plain temperatures), for every unit, prefix and alias the calculator knows, and the physical constants have their published values. Converting there and back, or through a third unit, gives back exactly the same number, and converting between different dimensions is refused.',
  'inputs', 'all pairs of units and compound units, all values within the working size',
  'tests convert a few dozen pairs; there are hundreds of units and unboundedly many compound units',
  ['modularcalculator/services/unitnormaliser.py', 'modularcalculator/objects/units.py', 'modularcalculator/features/unitdefinitions', F + 'units/units.py'],
  [('conversion', 'unitnormaliser.py unit_conversion'), ('unit definitions', 'features/unitdefinitions/*.py'), ('prefixes', 'features/units/*prefixes.py')],
  ['calculate("x A to B").results[-1]'],
  'property-based testing: conversions vs an independently written table of unit definitions; round-trip and path-independence laws',
  'The reference table was written from the published definitions (SI, BIPM, imperial statutes), not from the code.')

p('U02', 'Arithmetic on quantities preserves their physical value',
  'Adding, subtracting, comparing, multiplying, dividing and raising quantities gives a quantity whose size in base units is the exact result of the same operation on the sizes of its operands, whatever units, prefixes and order they were written in, with or without automatic simplification of units. Adding, subtracting or comparing quantities of different dimensions, or a quantity and a plain number, is refused. Degrees Celsius and Fahrenheit inside compound units are differences.',
  'inputs configurations', 'all expressions over quantities with compound units of up to four parts and powers -3 to 3',
  'tests fix around a hundred quantities; simplification choices depend on magnitude, order and system of all units involved',
  ['modularcalculator/services/unitnormaliser.py', 'modularcalculator/objects/units.py', F + 'numerical/basicarithmetic.py'],
  [('normalisation of operands', 'unitnormaliser.py normalise_inputs'), ('simplification', 'unitnormaliser.py simplify_units/dedupe'), ('result units', 'basicarithmetic.py')],
  ['calculate(text).results[-1] value and unit'],
  'property-based testing: quantity expressions vs reference model in base units (Fraction, dimension vector)',
  'Random exploration; the size and dimension of each unit come from the independent table.')

p('U03', 'Unit formatting and compaction preserve the quantity',
  'format(q) and format(q, system) list whole amounts (before any prefix) of successively smaller units of one system, for positive q none as large as one of the next larger unit of that system (a few rarely used units such as weeks and gills are never used, temperatures aside), and the parts add up to q; only units of the requested system (by default the preferred one of the unit of q) are used, and a quantity it has no unit for is refused. compact(q) and automatic simplification return the same physical quantity, however often they are applied.',
  'inputs configurations', 'all single-unit quantities of every dimension and system, all compound units for compaction',
  'tests format a couple of dozen quantities',
  [F + 'units/unitfunctions.py', 'modularcalculator/services/unitnormaliser.py', F + 'units/systems.py'],
  [('format', 'unitfunctions.py func_format'), ('simplify', 'unitnormaliser.py simplify_units')],
  ['calculate("format(...)")', 'calculate("compact(...)")'],
  'property-based testing: parsed format() parts summed against the reference quantity; idempotence and value preservation of compaction',
  'Random exploration with the independent unit table.')

p('U04', 'Unit names and displayed units parse back',
  'Every name (any letter case) and symbol (exact case) of every unit is understood as that unit wherever a unit may be written, and the name, symbol or singular form shown for a result, compound units with whole or decimal powers included, parses back to exactly the same unit. A word that continues the name of a unit with a letter or underscore is not that unit, and where two units share a word the one from the preferred system is meant.',
  'inputs configurations', 'all units, prefixes, aliases and compound units',
  'tests parse a few names and symbols; there are over a thousand, and any prefix may clash with another unit',
  [F + 'units/units.py', 'modularcalculator/objects/units.py', 'modularcalculator/services/unitnormaliser.py', 'modularcalculator/features/unitdefinitions'],
  [('parse', 'units.py parse_units'), ('unit text', 'objects/units.py UnitPowerList.name')],
  ['calculate("1 <unit>").results[-1].unit'],
  'property-based testing: print/parse round trip over all unit names, symbols and random compound units',
  'Exhaustive over single names when the tier allows, random over compounds.')

p('S01', 'Variables behave as an assignment store',
  'After any sequence of statements each variable holds exactly the value and unit last assigned to it: = and ||= and the operator assignments (++ -- += -= *= /= ^= %= \\=) store and return what the plain operator would give, delete and reset remove variables, and no other statement changes any variable. A statement that fails leaves every variable as it was before it, and statements before it keep their effect. A variable may have any name that is no word of the language, also one that continues such a word with letters or an underscore.',
  'histories programs', 'all histories of statements on one calculator, over several calls',
  'the tests use a few short scripts; a defect needs a particular history of assignments, failures and deletions',
  [F + 'state/assignment.py', F + 'state/assignmentoperators.py', F + 'state/assignmentfunctions.py', 'modularcalculator/engine.py'],
  [('store', 'state/assignment.py op_var_set'), ('operator assignment', 'assignmentoperators.py assignment_operator')],
  ['calculate(text)', 'result.state with include_state'],
  'stateful model-based testing: random histories of statements vs a dictionary reference model',
  'Random histories; the model uses exact rationals.',
  [('variables', 'name to (value, unit)', 'calculator.vars')])

p('S02', 'Evaluation options do only what they say',
  'With the option to only parse, nothing is evaluated, no variable changes and the items returned are the same as for a normal call; with the stateless option no variable changes and assignments still return the assigned value; with the option to include state each result carries the variables as they were after its own statement, unaffected by later statements. The results of statements that do not read a variable being assigned are the same with and without any of the options.',
  'programs histories configurations', 'all programs, all starting states and combinations of options',
  'tests use the options in single statements',
  ['modularcalculator/engine.py', F + 'state/assignment.py', F + 'state/assignmentoperators.py'],
  [('flags', 'engine.py calculate'), ('stateless', 'state/*.py')],
  ['calculate(text, flags)', 'result.state'],
  'property-based testing: differential between option combinations on generated programs and histories',
  'Random programs; compares complete snapshots of state.')

p('S03', 'Layout, comments and grouping do not change results',
  'Adding or removing spaces and tabs between the parts of a program, blank lines, trailing comments or redundant brackets changes no result; a program gives the same results and variables whether its statements are sent in one call or one per call. A line break inside brackets or after an operator that still needs a right operand continues the statement.',
  'programs', 'all programs of the language and all layouts of them',
  'tests use one layout per program',
  [F + 'nonfunctional/space.py', F + 'nonfunctional/comments.py', F + 'structure/terminator.py', F + 'structure/innerexpressions.py', 'modularcalculator/engine.py'],
  [('parsing', 'engine.py parse'), ('terminators', 'terminator.py parse_terminator')],
  ['calculate(text)'],
  'metamorphic property-based testing: generated programs re-laid out and split, results compared',
  'Random programs and layouts.')

p('S04', 'Results depend only on the program and are never changed afterwards',
  'The same program on calculators with equal variables gives the same results whatever was calculated before, on that or any other calculator with the same settings, including calculations that failed. Results, units and states already returned never change because of later calculations, and an error leaves the calculator fully usable.',
  'histories programs', 'all interleavings of programs (valid and invalid) on several calculators',
  'needs particular histories; tests use a new calculator for each case',
  ['modularcalculator/engine.py', F + 'structure/terminator.py', F + 'structure/functions.py', F + 'structure/inlinefunctions.py', 'modularcalculator/objects/units.py'],
  [('shared mutable items, units and arrays', 'engine.py execute/finalize, objects/operators.py Operation.call')],
  ['calculate(text) on used and fresh calculators', 'earlier responses'],
  'stateful differential testing: random histories on a used calculator vs a fresh one, with snapshots of all earlier results',
  'Random histories; cached text, shared units and aliasing are observable only this way.')

p('S05', 'Calculators are independent of each other, of the thread and of the host program',
  'What a calculator computes and shows depends only on its own features, settings (size, places, rounding, feature options, preferred unit systems, unit simplification and its parameters) and history: not on other calculators, their settings or what they calculate, not on the thread it is made or used in, and not on the decimal context of the host program, which a calculation leaves as it was. Calculators used at the same time in different threads, each in one thread at a time, give the results each gives alone.',
  'histories schedules configurations', 'all interleavings of several calculators with different settings in several threads',
  'tests use one calculator with one setting in one thread',
  ['modularcalculator/numericalengine.py', 'modularcalculator/objects/number.py', 'modularcalculator/modularcalculator.py', 'modularcalculator/engine.py'],
  [('context of a calculation', 'numericalengine.py calculate, number_context'), ('display', 'objects/number.py to_string'), ('registries of a calculator', 'modularcalculator.py __init__')],
  ['calculate(text) of several calculators, in several threads', 'Number.to_string(calculator)'],
  'stateful property-based testing: random histories of several calculators, interleaved and in parallel threads, vs each calculator alone',
  'Random interleavings; real threads with short switch intervals explore schedules at random.')

p('R01', 'Any input gives a result or a calculator error',
  'For any text and any option the calculator either answers or raises its own calculation error carrying a message and the results of the statements before it; no other exception escapes, and it does so in bounded time. Every result it returns, its value, unit and elements, can be displayed.',
  'inputs programs', 'all strings, including random bytes, mutated programs, deep nesting and unusual characters',
  'the set of inputs is infinite; tests list a few errors',
  ['modularcalculator/engine.py', 'modularcalculator/objects/operators.py', 'modularcalculator/features'],
  [('error conversion', 'engine.py calculate/parse/execute_operand, operators.py Operation.call')],
  ['calculate(text)'],
  'coverage-guided grammar and mutation fuzzing with a crash/exception oracle',
  'Fuzzing; time bound of 25 CPU seconds per input. Inputs asking for astronomically large powers, repetitions or ranges are bounded.')

p('R02', 'Items and highlighting reproduce the source exactly',
  'For any text that parses, the concatenated text of the items of each result, and of the results, is the input text, character for character, also inside brackets, functions and arrays, and the syntax highlighter returns segments that concatenate to the same text. For text that does not parse, the items of the error are a prefix of the input.',
  'inputs programs', 'all programs and mutated programs, parsed only or executed',
  'tests highlight a handful of lines',
  ['modularcalculator/engine.py', 'modularcalculator/objects/items.py', 'modularcalculator/services/syntaxhighlighter.py', F + 'structure'],
  [('items', 'objects/items.py'), ('highlighter', 'services/syntaxhighlighter.py')],
  ['result.items', 'result.expression', 'SyntaxHighlighter.highlight_statements'],
  'property-based testing: source reconstruction invariant over generated and mutated programs',
  'Random programs.')

p('R03', 'Errors point at the place that failed',
  'When a statement fails, the reported position lies inside the failing statement at the operator, function or value that failed, the reported part of the program before it is exactly the text up to that position, and, when an operation fails, the results of all earlier statements are attached. This holds at any nesting of brackets, functions, arrays, ranges and branches; the failure of a user-defined function is reported at its call.',
  'programs inputs', 'all programs with exactly one failing operation, at any depth',
  'tests check a few dozen positions at small depth',
  ['modularcalculator/objects/exceptions.py', 'modularcalculator/engine.py', F + 'structure/innerexpressions.py', F + 'structure/functions.py', F + 'arrays/arrays.py'],
  [('error items', 'engine.py restore_non_functional_items'), ('position', 'exceptions.py find_pos')],
  ['CalculatingException.find_pos(text)', 'statements', 'response'],
  'property-based testing: one planted failing operation in a generated program, reported position vs known position',
  'Random programs; the failing operation is planted so its position is known.')

p('A01', 'Arrays and ranges apply operations element by element',
  'An operation given arrays where it takes single values gives the array of its results for each position, single operands being repeated; arrays of different length are refused, and an element that fails is an error only at its own position. A range from a to b with a step lists exactly a, a plus the step and so on, up to and not beyond b, ascending or descending, exactly, with units converted; arrays keep the order, values and units of their elements.',
  'inputs programs', 'all arrays, nested expressions and ranges of up to some hundred elements',
  'tests use arrays of two or three elements',
  [F + 'arrays/arrays.py', 'modularcalculator/objects/operators.py'],
  [('broadcasting', 'operators.py Operation.call'), ('ranges', 'arrays.py ArrayElement.value')],
  ['calculate(text).results[-1].value'],
  'property-based testing: broadcasting vs element-wise evaluation (differential), ranges vs a Fraction reference',
  'Random exploration.')

p('A02', 'Array and statistics functions compute what they name',
  'sum, min, max, mean, median, mode, stdev, count, sort, reverse, concat, element and filter agree with their mathematical definition on arrays of any length, including duplicates, negative values, mixed units of one dimension and mixed notations, keep each element\'s own value and unit where they return elements, and never change the arrays they are given. The functions over one array accept the values as separate arguments with the same result.',
  'inputs', 'all arrays of numbers and quantities, lengths 1 to 60',
  'tests use one or two arrays of a few integers',
  [F + 'numerical/statisticalfunctions.py', F + 'arrays/arrayfunctions.py', 'modularcalculator/objects/operators.py'],
  [('statistics', 'statisticalfunctions.py'), ('array functions', 'arrayfunctions.py'), ('element normalisation', 'operators.py Operation.call')],
  ['calculate(text).results[-1]'],
  'property-based testing: array functions vs Fraction reference model, permutation and aliasing laws',
  'Random exploration; stdev to 20 significant digits.')

p('B01', 'Comparisons, booleans and conditionals follow logic',
  'and, or, xor, not, the comparisons and then/else obey classical logic on all operands: trichotomy and negation of comparisons, De Morgan, and equal values in different notations compare equal. An operand that the outcome does not depend on (the right of a decided and/or, the branch not taken) may fail without making the statement fail, while a needed one that fails makes it fail; non-boolean operands and conditions, and comparisons of texts that are no numbers or of different dimensions, are refused.',
  'inputs programs', 'all boolean expression trees with failing operands at any place',
  'tests enumerate truth tables of single operators',
  [F + 'boolean/booleans.py', 'modularcalculator/objects/operators.py'],
  [('boolean operators', 'booleans.py'), ('errors as values', 'operators.py Operation.call')],
  ['calculate(text).results[-1].value'],
  'property-based testing: boolean trees with planted failures vs lazy reference evaluator',
  'Random exploration.')

p('K01', 'Operations take the documented operands and refuse all others',
  'Every function accepts exactly the numbers of arguments its documented syntax lists (optional ones included) and every function and operator the kinds of value its parameters document: numbers, texts, booleans, dates, quantities (of time for date arithmetic), units, unit systems, variables, arrays of anything, of numbers or of booleans. A call with fewer or more arguments, or an operand of a kind that the parameter does not take, at any position, however the operand is written, is refused and changes nothing; when an array stands for a single value, exactly its elements of a wrong kind fail.',
  'inputs', 'every function and binary operator, every position, kind of value and way to write it, 0 to 6 arguments',
  'tests give each function one or two wrong arguments at most; the guarantee covers every combination of function, position and kind',
  ['modularcalculator/objects/operators.py', 'modularcalculator/modularcalculator.py'],
  [('validation of inputs', 'operators.py Operation.validate/validate_input'), ('operand kinds', 'operators.py input_can_be_type, the validators of the features')],
  ['calculate(text)'],
  'property-based testing: calls with random numbers and kinds of operands vs own table of the documented ones',
  'Random exploration against a committed table of functions; separate arguments for functions of one array, booleans for numbers, and fractions for positions or places are outside the claim.')

p('T01', 'String literals, functions and comparisons are faithful',
  'A string literal denotes its characters with the backslash making the next character literal, for any characters; length, lower, upper, lstrip, rstrip, strip, find, replace, substr, +$, *$ and the case-sensitive and case-insensitive comparisons agree with their definition on the characters of their operands. A number used where a string is expected is its displayed text.',
  'inputs', 'all strings, including quotes, backslashes, line breaks, non-ASCII and operator characters; all positions',
  'tests use a few ASCII words',
  [F + 'strings/strings.py', F + 'strings/stringfunctions.py', F + 'strings/stringcomparison.py'],
  [('literals', 'strings.py parse_string'), ('functions', 'stringfunctions.py'), ('comparison', 'stringcomparison.py')],
  ['calculate(text).results[-1].value'],
  'property-based testing: string operations vs a Python string reference over arbitrary text',
  'Random exploration with a dictionary of special characters.')

p('T02', 'Regular expressions, split and join are consistent',
  'The regular expression operators and functions (=~ !~ regexget regexsplit regexsub regexcount) find exactly the leftmost non-overlapping matches of the pattern, and agree with each other: the count is the number of matches got, splitting and the matches rebuild the string, a match exists exactly when the count is positive. join undoes split for any text and separator.',
  'inputs', 'all texts, patterns of a regular expression grammar, and separators',
  'tests use one pattern per function',
  [F + 'strings/regex.py', F + 'strings/stringarrayfunctions.py'],
  [('regex', 'regex.py'), ('split/join', 'stringarrayfunctions.py')],
  ['calculate(text).results[-1].value'],
  'property-based testing: generated patterns and texts vs Python re and mutual-consistency laws',
  'Random exploration; patterns come from a generator so that an independent brute-force matcher can cross-check them.')

p('D01', 'Date arithmetic follows the calendar',
  'Adding or subtracting a period of time to or from a date, with or without time of day, fraction of a second or time zone, gives the date that the Gregorian calendar gives, in the shortest of the date formats that shows it fully; the difference of two dates is the exact time between them, never negative, in the requested unit. Adding the difference to the earlier date gives the later one, the operators and functions agree, dateformat names the right weekday, and texts that are no date, or periods that are no time, are refused.',
  'inputs', 'dates from year 1 to 9999 in all formats and zones, periods in every unit of time',
  'tests use a handful of dates',
  [F + 'dates/dates.py', F + 'dates/datefunctions.py', F + 'dates/dateoperators.py'],
  [('parse and format', 'dates.py'), ('arithmetic', 'datefunctions.py')],
  ['calculate(text).results[-1]'],
  'property-based testing: date arithmetic vs an independent proleptic Gregorian day-number model, inverse laws',
  'Random exploration; the calendar model is integer arithmetic on microseconds.')

p('F01', 'User-defined functions see their arguments and restore the caller',
  'Calling an inline function or a function in a file evaluates its body with PARAM1, PARAM2 ... bound to the values and units of the arguments and returns the last value; the caller\'s variables are exactly as before afterwards, whether the body succeeded or failed at any statement, at any depth of nesting. An inline function also reads the caller\'s variables, a function file sees only its arguments, declared argument types and dimensions are enforced, and an array of functions or of arguments gives an array of results.',
  'programs histories fault_sequences', 'all function bodies, arguments, nesting and failing statements',
  'tests call a few functions once; restoration after failures at each point is not reached',
  [F + 'structure/inlinefunctions.py', F + 'structure/externalfunctions.py', F + 'structure/functionpointers.py'],
  [('inline call', 'inlinefunctions.py do_function'), ('file call', 'externalfunctions.py do_function'), ('argument passing', 'functionpointers.py')],
  ['calculate(text)', 'result.state'],
  'stateful property-based testing with planted failures: function calls vs substitution of the body, variables compared before and after',
  'Random bodies and failure points; function files live in a scratch folder.')

p('C01', 'Installing features is order-independent and closed under dependencies',
  'Installing a set of features in any order, at once or in several calls, with repeats, installs exactly those features with everything they depend on, and yields calculators that give the same result for every program (in several calls: when no feature is installed after one it declares to come after). A program that a smaller preset accepts gives the same result in each larger preset as long as it uses no words of the larger one. Installing an unknown feature is refused with the calculator\'s own error, leaving the calculator as it was, or skipped on request. Whatever is installed, a program gives a result or the calculator\'s own error.',
  'configurations programs', 'all subsets and orders of the features, all presets',
  'tests build only the presets in their listed order',
  ['modularcalculator/modularcalculator.py', 'modularcalculator/features/presets.py', F + 'layout.py', F + 'feature.py'],
  [('installation', 'modularcalculator.py install_features'), ('ordering of operators and parsers', 'modularcalculator.py add_op/add_parser')],
  ['ModularCalculator(...).install_features(...)', 'installed_features', 'calculate(text)'],
  'property-based testing: random feature sets in random orders, differential against the canonical order on a program corpus',
  'Random configurations and generated programs.')

p('C02', 'Configured symbols only rename',
  'Changing the configurable symbols (array brackets, separator, range and step, comment, statement end, string quote and escape, scientific E, function pointer) on one calculator makes it accept exactly the renamed programs with the same results, variables and places of failure; the replaced symbols lose their meaning, no other calculator changes, and setting the defaults again restores the behaviour. This holds for distinct symbols that are not part of an operator or of a name (a word symbol may begin a longer name). Dates are read and written in the configured date formats, and the input line of a function file starts with the configured comment symbol.',
  'configurations programs', 'all assignments of distinct fresh symbols, all programs',
  'tests never change the options',
  [F + 'arrays/arrays.py', F + 'nonfunctional/comments.py', F + 'structure/terminator.py', F + 'strings/strings.py', F + 'numerical/expnumbers.py', F + 'structure/functionpointers.py', F + 'dates/dates.py'],
  [('feature options', 'feature_options of each feature')],
  ['calculator.feature_options', 'calculate(text)'],
  'metamorphic property-based testing: programs printed with random symbol sets, compared with the default symbols',
  'Random symbol sets and programs.')

p('C03', 'Custom features work like built-in ones and stay where they are installed',
  'Importing a feature file from any path makes exactly the features of that file known to that calculator, whatever other files or modules have the same name. Installing custom features installs what they depend on (built-in, custom or part of a meta feature) before them, after the features they declare to come after as far as these are installed too, and each once. What they register then works in expressions with the meaning it was given: constants, words of their own parsers, functions, operators of one to three operands with the precedence and grouping of the place they were added to, and units (also of a new dimension or with prefixes) with their scale, together with all built-in operations. Calculators that do not install them, made before or after, give the same results as without them, also when several calculators use different custom features with the same names and symbols.',
  'configurations programs histories', 'all sets of feature files, all expressions over what they define',
  'tests import no custom feature',
  ['modularcalculator/modularcalculator.py', F + 'feature.py', F + 'layout.py', 'modularcalculator/engine.py', 'modularcalculator/services/unitnormaliser.py'],
  [('importing', 'modularcalculator.py import_feature_file'), ('installing', 'modularcalculator.py install_features, add_feature_to_be_installed'), ('places of operators and parsers', 'modularcalculator.py add_op, add_parser'), ('execution by precedence', 'engine.py execute')],
  ['calculator.import_feature_file(path)', 'calculator.install_features(names)', 'calculate(text)'],
  'property-based testing: generated feature files, expressions over them vs an evaluator that knows the definitions, differential on calculators without them',
  'Random feature files in a scratch folder; independence of calculators is checked for the programs generated.')

p('M01', 'Trigonometric and special functions match the mathematical functions',
  'Trigonometric, hyperbolic and inverse functions agree with the mathematical function of that name to at least 14 significant digits (of argument or result) at every argument in its domain, angles being converted from whatever angle unit they are given in; every special function agrees with the reference library (scipy) to 12 digits, whole-number parameters being whole and the others keeping their fraction, and the real part being given of complex results. Arguments outside the domain, a wrong number of arguments and units that are no angle are refused; results have no unit. Identities such as sin^2 + cos^2 = 1 and inverse of function = argument hold, and pi, tau and e are right to 45 digits.',
  'inputs', 'all arguments in the domains, all angle units, all functions',
  'tests evaluate one point per function',
  [F + 'numerical/trigonometryfunctions.py', F + 'numerical/specialfunctions.py', F + 'numerical/numericalconstants.py'],
  [('trigonometry', 'trigonometryfunctions.py'), ('special functions', 'specialfunctions.py'), ('constants', 'numericalconstants.py')],
  ['calculate(text).results[-1]'],
  'property-based testing: functions vs independent math/scipy references, identities',
  'Random exploration; special functions are compared with scipy called directly.')
