"""Regenerates properties.jsonl and MANIFEST.json (python3 -m bv.meta)."""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
S = 'source/'
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=(), observe=()):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=[f for f in files], state=[dict(name=n, meaning=m, where=w) for n, m, w in state], mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)), technique, note))


GOLD = "The repository's tests compare the generated text of about 180 fixed headers with recorded files (and compile part of them); they never call what was generated, so they cannot say what the bindings do, and they say nothing about headers, option combinations or orders that are not among the recorded ones. "

prop('C01', 'Every generated file compiles on its own and the module imports',
     'For every C++ header set whose code is within what the documentation describes, each source file that the tool generates compiles as a separate translation unit with the headers the project itself uses, all files link into one extension, and importing that extension in a fresh interpreter succeeds. Each generated file names, by include directives, everything it uses, independently of how the bindings were split among files and of which other files exist.',
     ['programs', 'configurations'], 'all header sets, include graphs and file-splitting options', GOLD + 'A missing include or forward reference shows only for particular include graphs and file splits.',
     [S + 'main.cpp', S + 'context.cpp', S + 'class.cpp', S + 'function.cpp', S + 'enum.cpp', S + 'type.cpp', S + 'util.cpp'],
     [('collection of includes per binding', S + 'type.cpp: add_relevant_includes; class.cpp/function.cpp/enum.cpp: add_relevant_includes'), ('file assembly', S + 'context.cpp: Context::generate')],
     'compile-and-import monitor over seeded random and hand-written projects', 'explores seeded random projects plus hand-written hostile ones; every generated file is compiled separately without precompiled headers and the module is imported in a fresh process; trusts clang 14, pybind11 and CPython')

prop('C02', 'Module surface: everything requested, exactly once, at its namespace path',
     'The imported module contains, for every requested public function, class, enum and class member of a supported kind, exactly one Python object with the C++ name, located in the submodule that mirrors its C++ namespace (or in its enclosing class), with one overload per C++ overload, and it contains nothing that was not requested and is not needed by something requested. The order of declarations, reopened namespaces, redeclarations and the distribution over headers do not change the surface.',
     ['programs', 'histories'], 'all header sets and declaration orders', GOLD + 'Duplicates, lost overloads and misplaced names depend on how declarations are distributed.',
     [S + 'main.cpp', S + 'context.cpp', S + 'function.cpp', S + 'class.cpp', S + 'enum.cpp'],
     [('collection of declarations', S + 'main.cpp: BinderVisitor'), ('deduplication and requests', S + 'context.cpp: Context::add, Context::request_bindings, Context::bind'), ('namespace to module', S + 'context.cpp: Context::generate')],
     'differential monitor: imported module surface against the model of the generated project', 'model is built by the project generator, not by parsing the output; explores seeded random projects and hand-written ones')

prop('C03', 'Selection directives decide exactly what is bound',
     'A namespace, class, function, enum or field is bound exactly when the directives of the configuration and the command line say so: namespaces match by whole path components with the longest match deciding and inner namespaces inheriting, entity directives (plain name, full signature, template name or specialisation) override the namespace decision for precisely the entities they name, and skipped classes (and classes of skipped namespaces) also remove every function whose signature needs them, directly or as template argument, while a bound function or class brings along the classes and enums that its signatures (by value, reference or pointer) and bases name unless they are skipped. Unrelated entities, including ones whose name has a directive\'s name as prefix or suffix, are not affected, and the order of the lines does not matter.',
     ['configurations', 'inputs'], 'all combinations of bind and skip directives over all name shapes', GOLD + 'Tests use one configuration per header; they do not cross directives with similar names, nesting or conflicting directives.',
     [S + 'config.cpp', S + 'config.hpp', S + 'class.cpp', S + 'function.cpp', S + 'enum.cpp', S + 'context.cpp'],
     [('directive decisions', S + 'config.cpp: is_namespace_binding_requested, is_function_binding_requested, is_function_skipping_requested, is_class_binding_requested, is_class_skipping_requested, is_enum_*, is_field_skipping_requested'), ('application', S + 'class.cpp: is_binding_requested, is_skipping_requested; function.cpp; enum.cpp')],
     'differential monitor: module surface under generated configurations against a reference decision procedure', 'reference procedure written from the documentation; configurations generated at random with near-miss names plus hand-written conflicts')

prop('C04', 'A Python call executes exactly the C++ function that was named',
     'Calling a bound function, static function or member function from Python runs the C++ function of that name, class and overload exactly once, on the object it was called on, with the argument values given, and delivers its result or its exception. Argument values, object identities and results pass unchanged for every bound parameter form (value, reference, const reference, pointer, smart pointer, enum, callable), and overloads are chosen by argument number and type.',
     ['programs', 'inputs'], 'all bound signatures and argument values', GOLD,
     [S + 'function.cpp', S + 'class.cpp', S + 'type.cpp', S + 'util.cpp'],
     [('function pointer expression', S + 'function.cpp: function_pointer_type, bind_function'), ('lambda wrappers for calls', S + 'function.cpp: function_arguments, bind_function')],
     'trace monitor: events emitted by the bound C++ code against the expected call trace', 'instrumented C++ records function identity, this and argument values; every observed trace is compared with the expected one')

prop('C05', 'Default arguments and keyword names are those of the C++ declaration',
     'A call that omits trailing defaulted arguments behaves exactly as the C++ call with those arguments omitted, for every number of omitted arguments and every form of default expression, also when the default is evaluated anew for each call. Every named parameter can be passed by its C++ name as keyword with the same effect as by position; a missing non-default argument is an error.',
     ['programs', 'inputs'], 'all signatures with default arguments, all omission counts, all keyword subsets', GOLD,
     [S + 'function.cpp', S + 'class.cpp'], [('one binding per arity', S + 'function.cpp: bind_function'), ('constructor arities', S + 'class.cpp: bind_constructor'), ('py::arg names', S + 'function.cpp: bind_function')],
     'trace monitor over all arities and keyword forms of generated signatures', 'events of the called C++ function are compared with the ones of the same C++ call')

prop('C06', 'Constructors and copies create the object that C++ would create',
     'Python can construct a bound class by exactly its public non-deleted constructors (including implicit default, converting, inherited and copy constructors), each call runs that constructor once with the given arguments, and a class that C++ can not construct (abstract, deleted or non-public constructors) can not be constructed from Python. Copying an object from Python yields an independent object equal to the C++ copy, and a Python-derived class of a class with overridable methods is constructed through the same constructors.',
     ['programs', 'inputs'], 'all classes and constructor sets', GOLD,
     [S + 'class.cpp'], [('constructor selection', S + 'class.cpp: ClassBinder::bind, bind_constructor, is_const_overload, is_callback_structure_constructible'), ('copy constructors', S + 'class.cpp: bind_copy_constructor')],
     'trace monitor: construction, copy and destruction events per object', 'every constructor event with its arguments is compared with the C++ construction')

prop('C07', 'Python overrides of virtual functions are what C++ calls',
     'When a Python class overrides an overridable virtual member function of a bound C++ class, every call of that function from C++ on such an object reaches the Python override with the C++ arguments and the Python result is what the C++ caller receives; where there is no override the C++ implementation of the nearest base runs; pure virtual functions without an override raise an error instead of undefined behaviour. This holds for inherited, protected, const, overloaded, covariant, reference-returning and multiply-inherited virtual functions and for exceptions raised in the override; final functions are never overridden.',
     ['programs', 'histories'], 'all hierarchies with virtual functions and all sets of overrides in Python', GOLD,
     [S + 'class.cpp', S + 'config.cpp'], [('call-back structure', S + 'class.cpp: bind_member_functions_for_call_back, generate_call_back, is_callback_structure_needed')],
     'trace monitor: C++ to Python dispatch log against the C++ overriding rules', 'Python overrides and C++ bodies record who was called with what')

prop('C08', 'The Python class hierarchy mirrors the C++ one',
     'A bound class is a Python subclass of exactly its bound public C++ bases, an object can be passed wherever C++ accepts a reference, pointer or shared pointer to one of its bases and arrives there as the correct base subobject, and objects returned through a base keep their identity. Bases are registered before the classes that need them for every order of declarations, including nested classes, templates, multiple and virtual inheritance, and non-public or unbound bases.',
     ['programs', 'histories'], 'all inheritance graphs and declaration orders', GOLD,
     [S + 'class.cpp', S + 'context.cpp'], [('base class list', S + 'class.cpp: maybe_base_classes'), ('dependency order', S + 'context.cpp: sort_binders, ClassBinder dependencies')],
     'object-address and field monitor over base conversions; import monitor over declaration orders', 'address of every base subobject seen by C++ is compared with the one C++ computes',)

prop('C09', 'Data members read and write the C++ storage',
     'Every public data member of a bound or built-in type (pointers, references, arrays and bit-fields excepted) is bound, reads the current value of that C++ member of that object and, unless it is const or not assignable, writes it, with the C++ type enforced; writes are visible to C++ and C++ changes are visible to Python, and class-type members alias the storage inside the object. Const or non-assignable members can not be written, non-public members do not appear.',
     ['programs', 'histories'], 'all member types, qualifiers and access patterns', GOLD,
     [S + 'class.cpp'], [('data member binding', S + 'class.cpp: bind_data_member, is_field_assignable, is_bindable_raw(FieldDecl)')],
     'state monitor: values and addresses seen from C++ and Python after each access', 'round trips in both directions over all member kinds')

prop('C10', 'Enumerations keep their names, values, scope and conversions',
     'Every bound enum exposes all its enumerators with their exact C++ values (negative, duplicate, full range of the underlying type), unscoped enumerators are also visible in the enclosing scope and behave as integers while scoped ones do neither, and enum arguments, results, defaults and members pass the exact value. Enums in namespaces, classes and templates are placed where C++ has them.',
     ['programs', 'inputs'], 'all enum declarations and enumerator values', GOLD,
     [S + 'enum.cpp', S + 'class.cpp'], [('enum binding', S + 'enum.cpp: EnumBinder::bind, bind_enum, is_bindable')],
     'value monitor over all enumerators and conversions of generated enums', 'values reported by C++ are compared with the ones Python sees')

prop('C11', 'Operators act like the C++ operators, including printing',
     'A bound member operator is available under the Python special method of the operation (unary and binary forms told apart, compound assignment in place, call, index, comparison) or the documented helper name, and applying it in Python runs that C++ operator once with the operands in order. A class for which a stream insertion operator is declared prints as that operator prints it, wherever C++ would find the operator.',
     ['programs', 'inputs'], 'all member operators, overload sets and stream operators', GOLD,
     [S + 'function.cpp', S + 'class.cpp', S + 'context.cpp'], [('operator names', S + 'function.cpp: cpp_python_operator, python_function_name'), ('printing', S + 'class.cpp: bind_repr, Context::find_insertion_operator')],
     'trace monitor over Python operator expressions', 'operator events with operands are compared with the C++ operation')

prop('C12', 'Output layout options change the files, never the module; file lists are exact',
     'Options that control the layout of the output (maximum file size, single file, flat names, annotations, line numbers, destination prefix) yield modules with identical surface and behaviour. The written list of sources names exactly the generated source files, each once, all of them existing and none shared by two parts of the module, and the list of modules names exactly the namespaces that have bindings.',
     ['configurations', 'programs'], 'all option values crossed with all projects', GOLD + 'Every test runs with one set of options.',
     [S + 'context.cpp', S + 'main.cpp', S + 'options.hpp', S + 'util.cpp'], [('file splitting and lists', S + 'context.cpp: Context::generate, file_name_prefix_for_binder'), ('options', S + 'main.cpp: main; ' + S + 'options.cpp')],
     'differential monitor: same project under many layouts', 'surface and call results of each layout are compared; file lists are compared with the directory')

prop('C13', 'Regeneration is deterministic and independent of what was there before',
     'Running the tool twice on the same input with the same options yields byte-identical files, whatever the process address layout, environment, time, directory names and previous content of the output directory (including truncated or foreign content from an interrupted run). Files whose content does not change are not rewritten (the module file and the lists of sources and modules may be), so that incremental builds stay valid, and files whose content differs are always brought up to date.',
     ['histories', 'crash_points', 'schedules'], 'all sequences of runs, interruptions and edits between runs', GOLD + 'Each test runs the tool once into an empty directory.',
     [S + 'context.cpp', S + 'util.cpp', S + 'main.cpp'], [('conditional rewrite', S + 'util.cpp: update_source_file'), ('ordered containers and sorting', S + 'context.cpp: Context::generate, sort_binders')],
     'byte-level trace of repeated runs under address randomisation, stale outputs and kills', 'runs are repeated with different address layouts, stale, truncated or read-only leftovers and kills at random points')

prop('C14', 'Every configuration line and option takes effect or is rejected',
     'Each documented directive of a configuration file has its documented effect regardless of its position in the file, white space around its arguments and the line ending, and empty lines and comment lines (starting with #) have none. A line that is no directive (no + or - sign, unknown name, missing argument) makes the tool stop with an error that names it and a non-zero status, without generating anything; no line is silently ignored or merged with its neighbour. The same holds for command-line options and values. Repeated directives add to the earlier ones, except for settings that have one value (default policies, call guards, the binder of one entity), where the last one counts; a namespace that is both requested and skipped is an error.',
     ['configurations', 'inputs'], 'all configuration texts', GOLD + 'Only well-formed configurations are tested.',
     [S + 'config.cpp', S + 'main.cpp'], [('configuration reader', S + 'config.cpp: Config::read')],
     'effect monitor per configuration line, and mutation of lines with required rejection', 'each directive has an observable effect in output or module; malformed lines must be rejected')

prop('C15', 'Ownership and call options from the configuration reach the bindings they name',
     'Default and per-kind return value policies, call guards, custom holders, module-local registration, static-function prefixes, the buffer protocol and smart-holder options are applied to all the functions and classes they name and to no others. Without such options the documented defaults hold: returned references and pointers, holders and names behave as the defaults say (functions that return rvalue references are not bound).',
     ['configurations', 'programs'], 'all option values crossed with all function and class kinds', GOLD,
     [S + 'config.cpp', S + 'function.cpp', S + 'class.cpp', S + 'enum.cpp'], [('policies', S + 'function.cpp: bind_function; config.cpp: default_*_return_value_policy'), ('holders', S + 'class.cpp: maybe_holder_type; config.cpp: holder_type')],
     'lifetime, identity and guard event monitor over configured bindings', 'policy is observed through object identity, copies and destruction; guard through its construction events')

prop('C16', 'Custom binders, trampolines and includes are used where configured',
     'A custom binder configured for a class replaces the generated binding of that class and every specialisation of it and nothing else, an add-on binder is called exactly once in addition to the generated binding, namespace binders and namespace add-ons run once for their namespace, and custom trampoline functions are called by the overriding code with the documented arguments. Configured includes appear in exactly the generated files that bind the named class, namespace or module, and suppressed includes in none.',
     ['configurations', 'programs'], 'all hook configurations crossed with all class and namespace forms', GOLD,
     [S + 'config.cpp', S + 'class.cpp', S + 'context.cpp', S + 'type.cpp'], [('hooks', S + 'class.cpp: ClassBinder::bind; context.cpp: Context::generate; config.cpp: *_binder*'), ('includes', S + 'type.cpp: IncludeSet; config.cpp: is_include_skipping_requested, *_includes')],
     'hook event monitor (each hook reports its calls and arguments)', 'hook functions record class, arguments and count')

prop('C17', 'Documentation comments arrive as doc strings, on the right object, unharmed',
     'The documentation comment in front of the first declaration of a bound function or member function, or of the definition of a bound class or enum, is present in the Python doc string of exactly that object (for a function with default arguments: of the overload that takes all of them), with its plain text (also that of block commands such as @param and @return) intact for any characters (quotes, backslashes, raw-string delimiters, format braces, trigraphs, non-ASCII, line ends of either kind), and objects without a comment get none. Function doc strings also name the C++ signature. No comment text changes the generated code otherwise.',
     ['inputs', 'programs'], 'all comment texts and placements', GOLD,
     [S + 'util.cpp', S + 'function.cpp', S + 'class.cpp', S + 'enum.cpp'], [('comment text', S + 'util.cpp: generate_documentation_string_for_declaration')],
     'doc string monitor with hostile comment text', 'doc strings of all objects are compared with the comment text')

prop('C18', 'The tool never corrupts memory or crashes, whatever the input',
     'For every input source, valid or not, and every configuration text and option combination, the tool ends by itself with a normal exit status, without undefined behaviour, memory errors, failed assertions or uncaught exceptions other than a reported error. This includes templates, macros, unnamed, incomplete, deeply nested, recursive and very large declarations.',
     ['inputs', 'configurations'], 'all source files, configuration files and argument vectors', GOLD + 'The test build has no sanitizers.',
     [S + 'main.cpp', S + 'context.cpp', S + 'class.cpp', S + 'function.cpp', S + 'type.cpp', S + 'util.cpp', S + 'config.cpp', S + 'enum.cpp'], [('all of the tool', 'source/')],
     'AddressSanitizer, UndefinedBehaviorSanitizer and standard library assertions over a hostile corpus and seeded mutations', 'tool code is instrumented (the installed LLVM libraries are not); exit status is monitored for signals')

prop('C19', 'Exit status zero means that every file was written correctly',
     'When the tool exits with status zero, every generated file exists and is complete, and the input was processed without errors; when it can not read the configuration or the sources, the sources contain errors, or a file or directory can not be created or completely written, the exit status is not zero and a message says why. Nothing is written outside the output prefix, whatever the headers, namespaces and the prefix itself are called.',
     ['fault_sequences', 'inputs'], 'all I/O faults at every write, open, mkdir and rename, and all erroneous inputs', GOLD + 'No test injects faults.',
     [S + 'context.cpp', S + 'util.cpp', S + 'main.cpp', S + 'config.cpp'], [('writing', S + 'util.cpp: update_source_file; context.cpp: Context::generate'), ('errors', S + 'main.cpp: main; config.cpp: Config::read')],
     'fault injection at every system call that creates output, with a file-system monitor', 'faults are injected by a preloaded library at the n-th call; every written path is recorded')

prop('C20', 'Template specialisations are bound under unique, correct names',
     'Every class template specialisation that the requested interface uses and the sources instantiate is bound once, however often and in whatever spelling it is used, under the Python name made of the template name and its arguments (separators become underscores, with a trailing _t), and behaves as that specialisation: members of the partial or full specialisation that C++ selects, bases, member types, nested types, overriding, and default, integral, bool, enum, character, template and pack arguments. Function templates are bound for their instantiations as overloads. Standard containers are bound with their C++ members by default, with the Python list and dict interface under vector_T and map_K_V when the supplied container binders are configured, and are converted from and to Python lists and dicts when configured as built-in types or with --include-pybind11-stl.',
     ['programs'], 'all templates, argument kinds and nesting depths', GOLD,
     [S + 'class.cpp', S + 'type.cpp', S + 'function.cpp', S + 'stl_binders.hpp', S + 'util.cpp'], [('specialisation names', S + 'class.cpp: python_class_name, class_qualified_name; type.cpp: mangle_type_name, template_specialization'), ('container binders', S + 'stl_binders.hpp')],
     'behaviour monitor per specialisation and container-interface model', 'each specialisation reports its own arguments; containers are compared with Python list, dict and set models')

prop('C21', 'Nothing inaccessible or unsupported is ever bound',
     'Private and protected members, deleted functions, members of unnamed namespaces, templates that are not instantiated, and functions or fields whose type names an inaccessible entity anywhere (below a private class, as template argument, as pointee) never appear in the module, and neither do functions taking or returning function pointers, arrays, pointers to pointers, rvalue references, pointers to members or incomplete types, nor pointer, reference, array and bit-field members. Private and protected bases are not exposed as bases.  Their presence, in any position, does not remove or alter the binding of the accessible entities around them.',
     ['programs'], 'all mixes of accessible and inaccessible declarations', GOLD,
     [S + 'class.cpp', S + 'function.cpp', S + 'type.cpp', S + 'enum.cpp'], [('bindability', S + 'function.cpp: is_bindable; class.cpp: is_bindable; type.cpp: is_bindable; enum.cpp: is_bindable')],
     'surface monitor with inaccessible decoys around accessible entities', 'decoys have marked names; any marked name that appears is a violation, as is any accessible one that does not')

prop('C22', 'Objects live exactly as long as someone owns them',
     'Through any sequence of construction, copying, passing, returning, storing and dropping of bound objects, each C++ object is destroyed exactly once, never while Python or C++ still owns it, and never leaked when no owner is left. This holds for the default shared-pointer holder (shared with C++ in both directions), for objects that C++ keeps and hands out as pointers or references under the default and the configured policies, for classes with inaccessible destructors, for members and bases (which live as long as the object they are part of, also when only the part is still referenced from Python), and for objects whose class is extended in Python.',
     ['histories', 'programs'], 'all histories of operations on bound objects', GOLD,
     [S + 'class.cpp', S + 'function.cpp'], [('holder', S + 'class.cpp: maybe_holder_type'), ('policies', S + 'function.cpp: bind_function')],
     'conservation monitor of constructions and destructions over random histories', 'all live objects are tracked by address; histories are checked against a reference owner count')

REASON = {}


def main():
    (V / 'properties.jsonl').write_text(''.join(json.dumps(p) + '\n' for p, _, _ in P))
    checks, na = [], []
    for p, tech, note in P:
        i = p['id']
        if (V / 'bv' / 'checks' / (i.lower() + '.py')).exists():
            checks.append(dict(property=i, quick_cmd=f'python3 check.py {i} --quick', thorough_cmd=f'python3 check.py {i} --thorough', evidence_file=f'evidence/{i}.json', technique=tech, level='fault_enumeration' if i == 'C19' else 'exploration', level_note=note))
        else: na.append(dict(property=i, reason=REASON.get(i, 'check not built yet')))
    (V / 'MANIFEST.json').write_text(json.dumps(dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=na, notes='No hooks in /repo: the instrumentation lives in the workload C++ code, the preload library and the sanitizer build of the tool.'), indent=1) + '\n')
    print(len(P), 'properties,', len(checks), 'checks')


if __name__ == '__main__': main()
