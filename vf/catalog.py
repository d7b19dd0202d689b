"""The properties: writes properties.jsonl, MANIFEST.json and DESIGN.md (python -m vf.catalog)."""
import importlib
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CH = 'ctypeslib/codegen/cursorhandler.py'
TH = 'ctypeslib/codegen/typehandler.py'
HD = 'ctypeslib/codegen/handler.py'
CP = 'ctypeslib/codegen/clangparser.py'
CG = 'ctypeslib/codegen/codegenerator.py'
TD = 'ctypeslib/codegen/typedesc.py'
CF = 'ctypeslib/codegen/config.py'
UT = 'ctypeslib/codegen/util.py'
CL = 'ctypeslib/clang2py.py'
IN = 'ctypeslib/__init__.py'
LB = 'ctypeslib/library.py'
EX = 'ctypeslib/experimental/byref_at.py'
DT = 'ctypeslib/data/'
PROG = 'The tests translate a few dozen fixed headers'

ENTRIES = []


def P(pid, title, statement, over, text, why, files, mech, technique, note, design, cost=''):
    ENTRIES.append(dict(
        prop=dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=['text of the generated module', 'namespace of the imported module'])),
        technique=technique, note=note, design=design, cost=cost))


TRUST = ' Trusts clang 18 as the reference and the generator\'s own model of the declarations; exploration, not proof.'

P('P01', 'Generated records have the C layout of the host',
  'For every struct or union declared in valid C, the generated class has the size the C compiler gives the record, and every '
  'member reachable in C is reachable in the class at the same byte offset and with the same size.',
  ['programs'], 'every C program of records: nested, anonymous, packed, aligned, under pragma pack, with arrays, pointers, typedefs and forward declarations',
  PROG + ' and compare a handful of offsets; layout rules interact (packing x alignment x nesting x tail padding) in far more ways than that.',
  [CH, TH, CG],
  [('record parsing, padding and packing', CH), ('array and pointer types', TH), ('emission of _fields_ and _pack_', CG)],
  'runtime monitoring of the translator under random programs; layout oracle compiled by clang',
  'Every record of every random program is compared, member by member, with constants the compiler evaluates.' + TRUST,
  'A random program generator (vf/gen.py) writes records under nine profiles (plain, packed, aligned, unions, nested, wide, arrays, '
  'odd names, mixed). The program is translated by the real code and executed; the monitor locates each member path in the class '
  '(vf/layout.py) and compares size and offset with `sizeof` and `__builtin_offsetof` constants read from an ELF object that clang compiles '
  '(vf/oracle.py). Bounds: up to about 25 members, nesting depth 4.')

P('P02', 'Generated records have the C layout of the chosen target',
  'When a target is selected, every generated record has the size, member offsets and member sizes that the compiler uses for that target, '
  'whatever the pointer width, byte order and sizes of long and long double, even when the module is used on another machine.',
  ['programs', 'configurations'], 'every C program of records and every ELF target of the compiler: 64, 32 and 16-bit pointers',
  'The tests use two targets with a few records; each target has its own sizes and alignments.',
  [CP, CH, TH, CG, DT + 'pointer_type.tpl', DT + 'fundamental_type_name.tpl'],
  [('sizes of the fundamental types of the target', CP), ('emulated pointer and long double types', DT + 'pointer_type.tpl')],
  'runtime monitoring under random programs x 26 targets; layout oracle compiled by clang for the target',
  'Same comparison as P01 for 26 targets.' + TRUST,
  'As P01, with `-target T` for ten 64-bit, fourteen 32-bit and two 16-bit targets, passed as an option, a flag of the command line, or '
  'through the configuration. The reference object is compiled for the same target.')

P('P03', 'Bit-fields occupy the C bits and do not disturb their neighbours',
  'For every record with bit-fields that the generated classes can express, writing a member through the class changes exactly the bits '
  'that C assigns to this member, reading returns the value C reads, and no sequence of writes to some members alters another.',
  ['programs', 'histories'], 'every record mixing runs of bit-fields with other members, and every sequence of member writes',
  'The tests check a few offsets; a wrong storage unit or padding shows only in the bytes of particular combinations of widths.',
  [CH, CG], [('storage units and padding of bit-fields', CH + ': _fixup_record_bitfields_type'), ('emission of widths', CG)],
  'runtime monitoring of memory images under random write histories; byte oracle compiled by clang',
  'Byte images written through the class are compared with images clang emits.' + TRUST +
  ' Domain: every layout that some arrangement of ctypes storage units gives; the others are counted and left out.',
  'Random records of bit-fields of mixed types and widths between other members; for each field all-ones, random values and interleaved histories are written through the class and the '
  'bytes compared with the ELF data clang emits for the same initialiser; images from clang are read back through the class.')

P('P04', 'Generated types denote the declared C types',
  'Every type name of the translated source is available in the module and denotes the declared type: same category, width and '
  'signedness, array lengths, pointed-to types, argument and result types of function pointers, and members in declaration order with the same names.',
  ['programs'], 'every program of typedef chains, records, enumerations, arrays, pointers and function pointers, nested in each other',
  PROG + '; combinations of derived types are unbounded and a wrong pointee or sign keeps the layout.',
  [TH, CH, CG, HD], [('types', TH), ('typedefs', CH + ': TYPEDEF_DECL'), ('type names', CG)],
  'runtime monitoring with a structural type-matching oracle over random programs',
  'Each generated type is walked next to the declaration it comes from.' + TRUST,
  'The matcher (vf/matcher.py) walks every generated class, alias, array, pointer and function type alongside the model of the declaration, '
  'cycle-safe, and compares category, size, sign, lengths, pointee, prototypes, member order and names.')

P('P05', 'Objects of generated classes and C objects have the same bytes',
  'An object filled through its generated class has in memory exactly the bytes of the C object with the same member values, and the '
  'bytes of a C object read through the class give back the values C stored.',
  ['programs', 'inputs'], 'every record type and every value of its members, boundary values included',
  'The tests never fill records and compare memory with C.',
  [CH, TH, CG], [('record layout', CH), ('fundamental types', TH)],
  'runtime monitoring of memory images; byte oracle compiled by clang',
  'Both directions are compared for random and boundary values of every scalar leaf.' + TRUST,
  'Random values for every scalar leaf (one member of each union) are written through the class; the object bytes are compared with '
  'the bytes of the symbol clang emits for the same designated initialiser; then clang\'s bytes are read through the class and every leaf compared.')

P('P06', 'Enumerations keep every value, table, size and sign',
  'Every enumerator is available in the module with its C value, the table of an enumeration maps its values to its names, and the '
  'type of the enumeration has the size and sign that C gives it, wherever the enumeration is declared and whatever the target and options.',
  ['programs', 'configurations'], 'every enumeration: implicit, negative, 64-bit, duplicate and computed values, tagged or not, nested, forward-declared, packed',
  PROG + ' with small positive enumerators.',
  [CH, TH, CG, TD], [('enumerators', CH + ': ENUM_DECL'), ('tables and type', CG + ': Enumeration')],
  'runtime monitoring of the module namespace under random enumerations; values oracle compiled by clang',
  'All enumerators, tables and types compared with the compiler.' + TRUST,
  'Random enumerations in every position, with -fshort-enums, other targets and packed attributes. Values, `sizeof` and signedness come from clang.')

P('P07', 'Function prototypes are complete and bound to the right symbol',
  'Every function of the source that the library exports is bound in the module to the address of its own symbol, with the declared '
  'result type and exactly the declared argument types in order; parameters declared as arrays or functions are pointers.',
  ['programs', 'configurations'], 'every set of functions: prototypes, definitions, static, redeclared, variadic, through typedefs; with and without a library',
  PROG + '; the tests check few prototypes and never the address that is bound.',
  [CH, TH, CG, LB, CL], [('functions and parameters', CH + ': FUNCTION_DECL, PARM_DECL'), ('emission', CG + ': Function'), ('libraries', LB)],
  'runtime monitoring of bound functions; prototype oracle from the declarations, address oracle from the dynamic symbol table',
  'Result, arguments, address and export list are compared for every function.' + TRUST,
  'Random programs with many functions, with a compiled library for half of them; the monitor compares restype/argtypes with the model, and '
  'the address with that of the symbol in the loaded library.')

P('P08', 'Calls through the module deliver values unchanged in both directions',
  'When a function of a C library is called through the generated module, the C function receives every argument with the value the '
  'caller passed (scalars, pointers, arrays, records by value or by pointer) and the caller receives the value C returned.',
  ['programs', 'inputs'], 'every prototype over integers, floats, booleans, characters, enumerations, pointers and records, and every value of them',
  'The tests call hardly any function of a compiled library; a wrong argument type corrupts only some values.',
  [CH, TH, CG, LB], [('function prototypes', CH), ('call interface', CG), ('libraries', LB)],
  'runtime monitoring of real calls into compiled libraries; the C side checks arguments, the monitor checks results',
  'A compiled counterpart checks every leaf of every argument.' + TRUST + ' Records with unions or bit-fields are passed by pointer only '
  '(ctypes refuses them by value); records mixing float and double with padding by value are a recorded finding.',
  'A random library is generated, compiled, translated with -l, and called. The C side verifies each leaf against expected constants and '
  'returns a bit mask of mismatches plus a known value; pointers let C mutate memory that Python then checks.')

P('P09', 'Callbacks created from the module work in both directions',
  'A Python function wrapped in a generated function-pointer type is called by C with the values C passes and C receives what it '
  'returns, whether the pointer is an argument, a record member or reached through a typedef; pointers to C functions are callable from Python.',
  ['programs', 'histories'], 'every function-pointer type, every place it can be stored, every sequence of calls',
  'No existing test lets C call back.',
  [TH, CH, CG, DT + 'structure_type.tpl'], [('function pointer types', TH + ': FUNCTIONPROTO'), ('binding of callbacks', DT + 'structure_type.tpl')],
  'runtime monitoring of callback event logs: arguments, results and order',
  'Event log of each callback compared with what the C side sends and receives.' + TRUST,
  'The library stores, forwards and calls function pointers; Python callbacks log their arguments; an online checker compares the log '
  'with the expected trace (values, order, count) and the results C saw.')

P('P10', 'Variables have their C initial value',
  'Every global variable of the source is available and exported in the module with the value C gives it: integers in every base and '
  'suffix, floats, characters, strings with escapes, arrays with or without designators, enumerators and constant expressions, spelled directly or through macros '
  '(which need not be exported themselves); uninitialised variables are zero values of their type.',
  ['programs', 'inputs'], 'every variable declaration with a constant initialiser of the supported kinds, declared before or after its definition',
  PROG + '; literal syntax (base x suffix x sign x parentheses x type) has many more combinations.',
  [CH, CG], [('initial values', CH + ': VAR_DECL, _literal_handling, _operator_handling'), ('emission', CG + ': Variable')],
  'runtime monitoring of the module namespace; value oracle from the data section compiled by clang',
  'The value in the module is compared with the bytes clang emits for the variable.' + TRUST,
  'Random variables of the listed kinds; the bytes of each symbol are read from the ELF object clang emits.')

P('P11', 'Macros have their C value',
  'With macros requested, every object-like macro that expands to a literal (integer, float, character, string, a concatenation of strings), or to a '
  'parenthesised constant expression, or to another such macro is an exported name with the value C gives it.',
  ['programs', 'inputs'], 'every macro definition of these forms, in any order, redefined, undefined, defined through other macros or on the command line',
  PROG + ' and evaluate a dozen macros; the grammar of literals and expressions is unbounded.',
  [CH, CG, CP], [('macro evaluation', CH + ': MACRO_DEFINITION, _macro_definition_handle'), ('emission of macros', CG + ': Macro')],
  'runtime monitoring of the module namespace; value oracle compiled by clang',
  'The Python value is compared with the value clang computes for the macro.' + TRUST,
  'Random macros of the listed forms; clang compiles variables initialised with them, whose bytes are read from the object.')

P('P12', 'Preprocessor content never damages a translation',
  'Whatever macros, conditionals, pragmas and directives a valid source contains, the translation with or without macros succeeds, the module '
  'can be imported, and every type, function and variable means what it means without the macros.',
  ['programs', 'inputs'], 'every macro body and directive that clang accepts: token soup, unbalanced brackets, keywords, function-like, multi-line, variadic, stringizing',
  'Macro bodies are arbitrary token sequences that need not be valid C; the tests list about forty.',
  [CH, CG, CP], [('macro evaluation', CH + ': MACRO_DEFINITION'), ('emission of macros that cannot be evaluated', CG + ': Macro')],
  'runtime monitoring under random preprocessor content; differential oracle against the same program without it',
  'Namespace of the module with the noise compared with the namespace without.' + TRUST,
  'A random program is interleaved with random preprocessor noise and translated with and without macros; the monitor imports the modules '
  'and compares the description of every declared name with the clean program.')

P('P13', 'The order of declarations does not matter',
  'Every order of the same declarations that C accepts (forward declarations, uses before definitions, cycles between records) gives a module that '
  'can be imported, that exports every declared entity, and in which each of them means the same.',
  ['programs', 'histories'], 'every dependency graph of records, typedefs, functions and variables and every order that C accepts',
  'The number of orders is factorial; the tests contain a handful of circular records.',
  [CG, TH, CH], [('dependencies and order of emission', CG + ': generate, StructureHead, StructureBody'), ('registration of records in progress', TH + ': RECORD')],
  'runtime monitoring of permutations with a differential oracle (metamorphic)',
  'Module descriptions of several orders compared with each other.' + TRUST,
  'A random graph of declarations with constraints is linearised several times; every module is imported and described (vf/sig.py).')

P('P14', 'A translation depends on its input only',
  'The module is the same text whatever the process translated before (including failed translations and other targets and options), however often it '
  'is repeated, and whatever the hash seed of the interpreter.',
  ['histories', 'programs'], 'every sequence of translations in one process followed by any translation',
  'State that survives a translation (registries, caches, class attributes, templates) shows only in particular sequences.',
  [IN, CG, CP, HD, TH, CH], [('state of a translation', CP + ': registered types and fields'), ('the public functions', IN)],
  'runtime monitoring of histories of translations; byte equality with a pristine process',
  'Text of the module compared byte by byte with a process without history.' + TRUST,
  'Random histories of 3 to 8 translations, then a request whose text is compared with the one of a process forked before any translation, '
  'with a repetition and with new interpreters under other hash seeds.')

P('P15', 'Concurrent translations do not disturb each other',
  'Translations that run at the same time in several threads give each the module it gives when it runs alone.',
  ['schedules', 'programs'], 'every interleaving of translations in the threads of one process',
  'The outcome depends on the schedule; the tests are sequential.',
  [IN, CG, CP, TH, CH, UT], [('state shared between translations', CP), ('logging and warnings', UT)],
  'runtime monitoring of threads with forced preemption (short switch interval, injected delays); byte equality with sequential runs',
  'Texts of concurrent runs compared with sequential ones; counts the interleavings observed.' + TRUST,
  'Several threads translate different programs, targets and options with a tiny switch interval and random yields injected at line events '
  'of the package; each result is compared with the sequential text. Evidence counts switches between threads observed inside the package.')

P('P16', 'Filters select exactly what was asked for, and what it needs',
  'Restricting a translation to symbols (-s), to names matching regular expressions (-r) or to kinds of declarations (-k) yields a module '
  'that imports, that contains every selected declaration with the same meaning as in the unrestricted module, and beyond those only '
  'declarations that the selected ones depend on; every dependency is defined. The programming interface and the command line agree.',
  ['programs', 'configurations'], 'every program of declarations and every set of symbols, expressions and kinds',
  'The tests run each filter once on a small header; a forgotten dependency, a dropped selected item or a leak shows only for '
  'particular graphs of declarations.',
  [CG, 'ctypeslib/codegen/config.py', CL],
  [('selection', CG + ': generate_code, filter functions'), ('command line', CL)],
  'runtime monitoring: selection monitor over the reference graph of the declarations, and differential comparison of module signatures',
  'The unrestricted module is the reference for meaning, the graph of the generated program for what may appear.' + TRUST,
  'Programs of all kinds of declarations are translated with random filters; the monitor checks selected <= exported <= selected + mentioned, '
  'closedness, and equality of the signatures of all exported entities with those of the unrestricted module; CLI runs are compared with API runs.')

P('P17', 'Without the include option only the given file is translated, with what it needs',
  'By default the module exports every declaration of the given file and, of the files it includes (directly or not, however they are found), only what '
  'those declarations refer to, each with the same meaning and completely defined as if the whole program were one file; with includes requested (-i) it exports all '
  'declarations of all files, with the meaning they have in one file. This does not depend on how the file is named, included or guarded.',
  ['programs', 'configurations', 'histories'], 'every program, every distribution of it over a tree of files, every way to include and to name them',
  'The tests translate one or two fixed headers with one include; what is lost or left incomplete depends on which declaration sits in which file, '
  'and on the order in which they are met.',
  [CP, CG, CL, CH],
  [('location filter', CP + ': filter_location, start_element'), ('driver', CG + ': parse_input_files'), ('command line', CL)],
  'runtime monitoring: the scope monitor over the reference graph, and differential comparison with the module of the program in one file',
  'The module of the same program in one file is the reference for meaning; the generated tree for what must and may be exported.' + TRUST,
  'Random programs are spread over random trees of files and translated with and without -i, through the API and the command line, by several names of the same file.')

P('P19', 'Comments, docstrings, locations and file names change nothing but the text',
  'Comments in the source, of any style, content and place, never change the generated module, and neither do the options that copy comments, '
  'declarations and locations into it: with every combination of them, and for files with any name, the module imports and defines the same things with the same meaning.',
  ['programs', 'configurations'], 'every program, every comment and file name, every combination of the options',
  'The tests look at one comment of one file; what breaks the module is the content of a comment or of a file name and the declaration it is attached to.',
  [CG, CP, CL, CH],
  [('copied comments', CG + ': print_comment, _generate'), ('docstrings', CG + ': Function'), ('comments of cursors', CH + ': set_comment'), ('header of the output', CL + ': main')],
  'runtime monitoring: differential comparison of the imported modules with and without comments and options',
  'The module of the program without comments and options.' + TRUST,
  'Random programs are dressed with random comments (quotes, code, line ends, escapes, any characters), written to files with odd names, and translated with all combinations of options through the API and the command line; the modules must agree name by name, and nothing of a comment is executed.')

P('P20', 'The helpers of generated records and strings are faithful',
  'The constructor of a generated record sets exactly the members it is given, by position or by name, whatever they are called; as_dict shows every member, and no '
  'padding, with its value, through nested, anonymous and array members and null pointers; get_type gives the type of each member; bind gives a record with all the members, where callables replace the callbacks given '
  'and leave the arguments as they were; string_cast and char_pointer_cast, which every module with pointers to characters has, return the same text for every encoding '
  '(without null characters), as the error handler given says, and the same bytes.',
  ['programs', 'values'], 'every record type, every value of its members, every text and encoding',
  'The tests fill one or two records; what is lost depends on the kind of the members, their names and values.',
  [DT + 'structure_type.tpl', DT + 'string_cast.tpl', CG],
  [('record helpers', DT + 'structure_type.tpl'), ('padding names', CG + ': StructureBody')],
  'runtime monitoring: a value oracle over the helpers, on random records and values',
  'The value written to each leaf member, known to the monitor.' + TRUST,
  'Random records are filled with random values through ctypes and through the constructor; the monitor reads back every leaf through the helpers and compares.')

P('P21', 'Every entry point gives the same module',
  'translate, translate_files and the command line, with text or files, with an output stream, an output file, the standard output or the standard input, in any order of '
  'the options and in any locale, give the same module for the same bytes of source, exit with success, write where they are told and nothing else, and leave no file behind.',
  ['programs', 'configurations', 'environment'], 'every source text as bytes, every entry point, locale and order of options',
  'The tests use one entry point at a time on plain ASCII files.',
  [CL, IN, CG],
  [('command line', CL + ': Input, Output, main'), ('API', CG + ': translate, translate_files')],
  'runtime monitoring: differential comparison of entry points, with monitors of streams, exit status and files',
  'The module from the API for the same program.' + TRUST,
  'Random programs in random encodings of the same text (line ends, byte order mark, tabs, comments in other encodings) go through all the entry points, in process and as processes in several locales.')

P('P26', 'Several files in one translation',
  'A translation of several files exports what the translation of each exports, once, with the same meaning and completely defined, whatever the order of the files, '
  'however often or by whatever name a file is given, and whichever of them includes another.',
  ['programs', 'histories'], 'every program, every way to divide it into files, every list of them',
  'The tests give one file, or two unrelated ones; what goes wrong depends on what an earlier file of the list has left in the parser.',
  [CP, CG, CH],
  [('list of files', CG + ': parse_input_files'), ('state kept between files', CP + ': parse, register'), ('records seen before', CH + ' and cursorhandler: _record_decl')],
  'runtime monitoring: the scope monitor, and differential comparison with the module of the program in one file',
  'The module of the same program in one file.' + TRUST,
  'Random programs are cut into chains of headers and independent sources; random lists of the files are translated at once, with and without -i.')

P('P25', 'How a program is spelled does not matter',
  'Programs that mean the same in C give the same module: white space, line splices, digraphs, the order of specifiers and qualifiers, alternate keywords, parenthesised or combined declarators, '
  'constant expressions for array sizes, bit-field widths and enumerators, redeclarations, function definitions instead of prototypes, conditional compilation, line markers, declarations '
  'produced by macros, _Pragma, attributes without effect on the interface and empty declarations change nothing.',
  ['programs'], 'every program and every rewriting that keeps its meaning',
  'Each test fixes one spelling; the translator reads types from the compiler but names, values and macros from tokens and extents, which depend on the spelling.',
  [CH, TH, HD, CP, UT], [('tokens of values', CH + ': _literal_handling, _VAR_DECL_value'), ('macros', CH + ': MACRO_DEFINITION'), ('redeclarations', CH + ': FUNCTION_DECL, VAR_DECL, TYPEDEF_DECL, _record_decl'), ('names', HD + ': get_unique_name')],
  'runtime monitoring: metamorphic comparison of the imported modules of a program and its rewritings',
  'The module of the same program in its plain spelling; the compiler confirms that the rewritten program is valid.' + TRUST,
  'Random programs go through random combinations of 18 rewritings; both forms are translated and imported, and every exported name must mean the same.')

P('P28', 'Real headers translate completely and correctly',
  'Every header of the system that compiles as C and needs no type ctypes lacks is translated, with and without the files it includes and with and without macros, to a module that imports, '
  'where every record, member, bit-field, enumerator, typedef and prototype has the layout, value and type the compiler reports, and which has everything the header declares.',
  ['programs', 'configurations'], 'every header installed',
  'The tests use three system headers and check that they import; what breaks is a combination of declarations nobody wrote a test for.',
  [CH, TH, CG, CP, CL], [('declarations', CH), ('types', TH), ('generated code', CG)],
  'runtime monitoring: modules of real headers observed against the compiler, declaration by declaration',
  'What libclang reports for the same translation unit: sizes, offsets, bit positions, values, canonical types.' + TRUST,
  'Headers under /usr/include are drawn at random (all of them in the thorough tier); each is translated in one of four configurations, imported, and compared with a walk over the translation unit.')

P('P30', 'Any name of C can be used',
  'Names never break a module: whatever the declarations, members, parameters and enumerators are called (keywords and builtins of Python, names of ctypes, names with other letters, very long or similar names), the module '
  'imports, exports each declaration under its name with its meaning, and the helpers of its records work.',
  ['programs'], 'every program and every assignment of names to its declarations',
  'The tests use a few dozen ordinary names.',
  [CG, DT + 'structure_type.tpl', DT + 'pointer_type.tpl', HD], [('names in the output', CG + ': python_name, type_name'), ('helpers', DT + 'structure_type.tpl'), ('unique names', HD)],
  'runtime monitoring: metamorphic comparison of the imported modules of a program and its renaming',
  'The module of the same program with neutral names, renamed.' + TRUST,
  'Random programs get hostile names for random subsets of their identifiers; the module must be that of the neutral program up to the renaming, and its helpers are run.')

P('P22', 'The documentation asked for is that of each declaration',
  'With the option for comments, the brief documentation that a declaration has in the source (in any doxygen form, in the file or a header) stands in front of its definition in the module, and in front of no other; ordinary comments are not taken for documentation. '
  'With the option for locations, the file and line of its declaration stand there. With the option for docstrings, a function tells its name, result, arguments with their names in order, file and line. None of these options changes a definition, whatever the text of the comments or the name of the file.',
  ['programs', 'configurations'], 'every source with documented declarations, and every combination of the options',
  'The tests look at the docstring of one function and for one comment.',
  ['ctypeslib/codegen/handler.py', CG, CH, CL], [('comments', 'ctypeslib/codegen/handler.py: set_comment'), ('text in the module', CG + ': print_comment, _generate, _Function'), ('options', CL)],
  'runtime monitoring: comment lines and docstrings of the generated module against the documentation planted in the source',
  'What the generator of the sources wrote, and where.' + TRUST,
  'Random documented sources with unique words in each comment; the monitor finds every word, line and argument again, or sees it where it does not belong.')

P('P31', 'Modules can be built on other generated modules',
  'A type that a module given with -m (--module) has is imported from it and not generated again: all modules refer to one and the same class, whichever of them need it and in whatever '
  'package they are; a record that the earlier module only declares is completed, and everything else of the header is generated with the same meaning as without the option.',
  ['programs', 'histories'], 'every program, every way to divide it into headers, every choice of modules to import from',
  'No test gives -m; two classes of the same name only differ once an object of one module meets the other.',
  [CG, CF, 'ctypeslib/clang2py.py'],
  [('the option', 'ctypeslib/clang2py.py: --module'), ('names of the modules', CF + ': _parse_options_modules'), ('import instead of generation', CG + ': import_known, _generate')],
  'runtime monitoring: a monitor of the identity of classes in the modules loaded together, and differential comparison with the module of the whole program',
  'The classes of the earlier modules; the module of the same program in one file.' + TRUST,
  'Random programs are cut into chains of headers; each one becomes a module, made with -m for the earlier ones, in packages or not, with -i, -s or neither.')

P('P24', 'The clang library is found and identified, whatever the environment says',
  'The library (or the directory of it) named in CLANG_LIBRARY_PATH is used when it is a clang library; anything else there (missing, empty, no library, a library without clang, a directory without it) '
  'gives a warning, and the library of the system is used as if it were not set, a library of the version of python-clang before others. clang_version() is the version that library reports, '
  'a warning is given exactly when its major version is not that of python-clang, and the modules generated do not depend on any of this.',
  ['environments', 'programs'], 'every value of CLANG_LIBRARY_PATH and every kind of file there, every set of clang libraries, every version string',
  'The tests run with the one library of the machine.',
  [IN], [('search', IN + ': __find_clang_libraries, __configure_clang_cindex'), ('version', IN + ': clang_version')],
  'runtime monitoring: fault injection in the environment of new interpreters, with a monitor of the library in use, the warnings and the modules',
  'The library, version and warnings expected from the environment made; the module of the same program in this process.',
  'Random environments with 15 kinds of CLANG_LIBRARY_PATH, clang libraries made up with version strings of many vendors, libraries in LD_LIBRARY_PATH; each in a new interpreter.')

P('P33', 'The effort of a translation is bounded by what is read and written',
  'Every translation comes to an end, with work that grows at most with the square of the size of the program and of the module: shared, repeated, mutually dependent and deeply nested declarations are '
  'not translated once for each path that leads to them.',
  ['programs', 'sizes'], 'every program of every size (the time the compiler library takes is not counted)',
  'The tests translate small programs, where everything ends at once.',
  [CP, CG, CH, TH], [('what was parsed', CP + ': parse_cursor, register'), ('what was generated', CG + ': generate_code, _generate'), ('macros', CH + ': MACRO_DEFINITION')],
  'runtime monitoring: a call counter (sys.setprofile) over programs of growing size, with an online limit',
  'The counts at smaller sizes of the same shape.',
  'Thirty shapes of programs (chains, graphs, lattices, long and repeated declarations) at three sizes, each twice the one before; the counter stops a translation that exceeds its limit.')

P('P29', 'Flexible arrays and arrays of length zero',
  'Records that end with a flexible array, or have arrays of length zero anywhere, have the size of the C record and all members at their C offsets, with the array at the offset of C with the right type of elements, so that elements placed behind '
  'the record in a larger buffer are the ones of C. This holds for nested records, packed and aligned ones, and for other targets.',
  ['programs', 'configurations'], 'every record with such arrays and every target',
  'The tests have two such records.',
  [CH, CG], [('offsets of such members', CH + ': FIELD_DECL, _fixup_record'), ('arrays', TH)],
  'runtime monitoring: reference layouts of the compiler, type matching, placement of elements in buffers',
  'Constant expressions evaluated by the compiler.' + TRUST,
  'Random records with such arrays for the host and five targets.')

P('P27', 'Functions and variables of libraries are the ones of the libraries',
  'A function or an extern variable is bound to the first listed library (-l) that defines its symbol (whatever kind of symbol: weak, aliased, versioned, indirect, common, constant; and under its assembler name, if it has one), and '
  'to no other; a variable is the live object of its C type in the library. Symbols that are hidden, static or only used count as absent, and never break the module. Preloaded libraries (-p), another nm (--nm) and libraries of the system given by their linker names work.',
  ['programs', 'configurations'], 'every set of libraries and every header for them',
  'The tests bind a few functions of one library.',
  [CG, 'ctypeslib/library.py', 'ctypeslib/codegen/config.py'], [('symbols of a library', 'ctypeslib/library.py: Library._get_symbols'), ('choice of the library', CG + ': find_library_with_func, get_sharedlib'), ('variables', CG + ': Variable')],
  'runtime monitoring: addresses against dlsym, calls, and changes made by the library',
  'dlsym on the libraries, and what their functions return.' + TRUST,
  'Random headers and one to three libraries with eleven kinds of symbols; addresses, results and types are compared, and variables are changed from the C side.')

P('P18', 'What the compiler refuses is refused, and only that',
  'A module is generated if and only if the compiler accepts the input under the given options. Otherwise the API raises InvalidTranslationUnitException with the first error of the compiler, and clang2py exits with a status other '
  'than zero and gives a reason, whichever of several input files is at fault, and also for files that are missing. Translations that follow in the same process are not affected.',
  ['programs', 'histories'], 'every text, valid or not, and every history of refused inputs',
  'The tests refuse two programs.',
  [CP, 'ctypeslib/clang2py.py', CG], [('diagnostics', CP + ': _parse_tu_diagnostics'), ('exit status', 'ctypeslib/clang2py.py: main')],
  'runtime monitoring: differential comparison of verdicts with the compiler, and a sentinel translation after each case',
  'clang -fsyntax-only on the same bytes with the same options; for the sentinel a process with no history.' + TRUST,
  'Damaged programs (tokens, whole declarations, cuts, strange bytes, -Werror and the like) go to the compiler and to the translator through the API and the command line; verdicts, reasons and a sentinel program afterwards are compared.')

P('P32', 'Options of the compiler take effect',
  'Macros, include directories, forced includes, language versions and options that change the ABI have the same effect on the generated module as on the compiler: -DX=v and the like give the module of '
  'the program with that definition in its text, the right header of several directories is used, and records, enumerations and types have the layout of the compiler under those options. This holds through --clang-args and through the API.',
  ['programs', 'configurations'], 'every program and every list of compiler options that it compiles with',
  'The tests give two or three options.',
  [CP, 'ctypeslib/clang2py.py', CH], [('options', CP + ': activate_..., parse'), ('--clang-args', 'ctypeslib/clang2py.py'), ('macros of the command line', CH + ': _constant_value')],
  'runtime monitoring: metamorphic comparison with the program that has the settings in its text, and reference layouts under the options',
  'The module of the same program with the settings in its text; for ABI options the compiler itself.' + TRUST,
  'Random programs with macros, headers in several directories and 22 sets of ABI options, given in random order and spelling.')

P('P23', 'Types keep their meaning on every target',
  'For every target, each generated type has the width and sign of the C type on that target, and pointers of another size than the '
  'host\'s remain pointers of the target\'s size to the right type.',
  ['programs', 'configurations'], 'every program of types and every ELF target of the compiler',
  'The tests cover two targets and only layouts.',
  [CP, TH, CG, DT + 'pointer_type.tpl'], [('type sizes of the target', CP), ('emulated pointers', DT + 'pointer_type.tpl')],
  'runtime monitoring with a structural type-matching oracle, 26 targets',
  'As P04, for 26 targets.' + TRUST,
  'The matcher of P04 with the type sizes clang reports for the target, and a use test of emulated pointers.')


NOT_APPLICABLE = []


def main():
    done = [e for e in ENTRIES if os.path.exists(os.path.join(HERE, 'vf/props', e['prop']['id'].lower() + '.py'))]
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for e in done:
            f.write(json.dumps(e['prop']) + '\n')
        for p, _ in NOT_APPLICABLE:
            f.write(json.dumps(p) + '\n')
    m = dict(version=1, setup_cmd='./setup.sh',
             checks=[dict(property=e['prop']['id'], quick_cmd='./check %s --tier quick' % e['prop']['id'],
                          thorough_cmd='./check %s --tier thorough' % e['prop']['id'],
                          evidence_file='evidence/%s.json' % e['prop']['id'], technique=e['technique'],
                          level='exploration', level_note=e['note']) for e in done],
             not_applicable=[dict(property=p['id'], reason=r) for p, r in NOT_APPLICABLE],
             notes='No hooks in /repo: every monitor works from outside, on the public interface.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    parts = [open(os.path.join(HERE, 'docs/head.md')).read()]
    for e in done:
        p = e['prop']
        mod = importlib.import_module('vf.props.' + p['id'].lower())
        parts.append('### %s %s\n\n%s\n\n- **Monitored:** %s\n- **What counts:** %s\n- **Assumes:** %s\n- **Why tests cannot:** %s\n' % (
            p['id'], p['title'], p['statement'], e['design'], mod.RULE, '; '.join(getattr(mod, 'ASSUMPTIONS', [])) or '-', p['why_tests_cant']))
    parts.append(open(os.path.join(HERE, 'docs/tail.md')).read())
    with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(parts))


if __name__ == '__main__':
    main()
