"""Source of properties.jsonl (run by hand)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=mech, where=files[0])])))
M = 'macroslib/src/'
p('C01', 'C++: values cross the boundary unchanged in both directions',
  'For every method, constructor and static function exported to C++, whatever arguments the C++ caller passes are the arguments the Rust function observes, and whatever it returns (or writes through a mutable reference or slice) is what the caller observes: same integer, float bits, bool, UTF-8 bytes (NULs and non-BMP included), enum item, element order and count, option/result arm and tuple position. The code generated for any such signature compiles, in the std C++17 and in the Boost configuration.',
  ['inputs', 'programs', 'configurations'], 'all signatures over the supported argument and return types, all values of them, both option/variant/string_view configurations',
  'The tests fix a few signatures with a few sample values (and match generated text by regex); conversions compose, so the space of signatures is unbounded and boundary values (min/max, empty, NUL, NaN, nested None/Err) are mostly absent.',
  [M+'cpp/cpp-include.rs', M+'cpp/map_type.rs', M+'cpp/cpp_code.rs', M+'cpp/fclass.rs', M+'cpp/fenum.rs', M+'typemap.rs'],
  'typemap conversion rules found as paths in the conversion graph and composed into Rust extern "C" glue plus inline C++ wrappers')
p('C02', 'C++: container, slice and iterator types behave as the sequences they hold',
  'Every RustVec, RustForeignVec, RustSlice, RustForeignSlice and RustString a C++ program holds behaves as a model sequence of the elements Rust put there: size, empty, indexing, iteration, iterator arithmetic and comparison, push, remove, clear, copying, moving and conversion to slices or string views all agree with the model after every operation. Writing through a mutable view is seen by Rust at the same element and only there.',
  ['inputs', 'histories'], 'all operation sequences over all element types and lengths, including empty, moved-from and default-made containers and self-assigned strings',
  'Unit tests check a handful of fixed sequences; the behaviour must hold after any interleaving of operations including growth, moved-from and empty states.',
  [M+'cpp/cpp-include.rs', M+'cpp/rust_vec_impl.hpp', M+'cpp/rust_foreign_vec_impl.hpp', M+'cpp/rust_foreign_slice_impl.hpp', M+'cpp/rust_foreign_slice_iter.hpp', M+'cpp/rust_slice_tmpl.hpp'],
  'C++ class templates over C structs (data,len,capacity / ptr,len,step) with extern "C" access functions into Rust Vec and slices')
p('C03', 'C++: Rust objects owned by C++ are dropped exactly once, memory-safely',
  'Under any sequence of constructing, moving, copying (where the class declares it), assigning, consuming by value, releasing, storing in vectors/options/results and destroying the generated C++ wrapper objects, each underlying Rust value is dropped exactly once, no sooner than its last owner goes away, and nothing leaks. No such sequence, in the domain the C++ types allow, causes a use after free, double free, wrong-layout deallocation or other undefined behaviour on either side.',
  ['histories', 'inputs'], 'all operation sequences on wrapper objects and containers of them, for all classes and self types',
  'Ownership errors show only in particular sequences (self-move, copy of moved-from, early return of Err, clear after remove) and usually leave the functional result right; the C++ tests are not run under sanitizers and have no drop accounting.',
  [M+'cpp/fclass.rs', M+'cpp/map_class_self_type.rs', M+'cpp/cpp-include.rs', M+'cpp/rust_foreign_vec_impl.hpp', M+'cpp/rust_vec_impl.hpp'],
  'Box::into_raw/from_raw in glue, move/copy constructors, operator= and destructors in class templates (owner bool parameter)')
p('C04', 'C++: smart-pointer self types share one object and serialise access',
  'When a class is exported with a shared self type (Arc, Arc<Mutex>, Rc, Rc<RefCell>, Box<dyn Trait> and the like), every C++ handle made from it refers to the same Rust object: an effect through one handle is visible through all, and the object lives until the last handle goes. Calls through lock-protected handles made concurrently from several threads are atomic: no update is lost, no data race occurs, and every lock or borrow is released when the call returns.',
  ['schedules', 'histories'], 'all interleavings of method calls, handle copies and handle drops from any number of threads',
  'Tests are single threaded and read one value back; loss of exclusion, wrong reference counts or a lock held past the call need particular schedules or histories.',
  [M+'cpp/map_class_self_type.rs', M+'cpp/fclass.rs', M+'cpp/cpp-include.rs', M+'typemap/ast.rs', M+'types.rs'],
  'self-type unwrapping through smart pointer conversions (lock().unwrap(), borrow_mut(), Arc::from_raw) in generated glue')
p('C05', 'C++: foreign callbacks deliver each call exactly, then are destroyed once',
  'When Rust calls a method of a trait implemented in C++ through foreign_callback, the C++ override of that very method is invoked exactly once with the arguments Rust passed and Rust receives exactly the value it returned, for every supported argument and return type, from whichever thread Rust calls. The C++ implementation object stays alive as long as Rust holds the callback and is destroyed exactly once when Rust drops it.',
  ['inputs', 'histories', 'schedules'], 'all callback signatures, values, call sequences, drop points and calling threads',
  'Tests call a few callbacks with fixed values; mixed-up method slots, argument order, ownership of passed objects, or a missing/double free of the context need many signatures and drop histories.',
  [M+'cpp/finterface.rs', M+'cpp/cpp-include.rs', M+'cpp/map_type.rs'],
  'a C struct of function pointers with opaque context; Rust trait impl on it, C++ static trampolines, Drop calls opaque_deleter')
p('J01', 'Java: values cross the JNI boundary unchanged in both directions',
  'For every static, instance and constructor method exported to Java, the Rust function observes exactly the values the Java caller passed, and the caller observes exactly what it returned: same number (unsigned types wherever they fit the wider Java type), float bits, bool, string (NUL, accents and surrogate pairs included), enum item, array order and length, object identity, and Optional presence. Any such declaration produces Java and Rust that compile and link through JNI names.',
  ['inputs', 'programs'], 'all signatures over the supported types and all values of them',
  'One fixed Java test class samples a few values; conversions compose and boundary values (min/max, unsigned above the signed range, supplementary characters, NUL, empty arrays, absent optionals) are mostly not reached.',
  [M+'java_jni/jni-include.rs', M+'java_jni/map_type.rs', M+'java_jni/fclass.rs', M+'java_jni/rust_code.rs', M+'java_jni/java_code.rs', M+'java_jni/fenum.rs'],
  'typemap rules to jni types, JNI name mangling and signature strings, generated Java wrappers')
p('J02', 'Java: Rust errors become exactly one Java exception, never corruption',
  'When an exported method returns Err (from a method, a static function or a constructor), the Java caller sees exactly one java.lang.Exception whose message is the error text, and no object or value; when it returns Ok no exception is pending. A number that the Rust type cannot represent, a null enum, and an object already given away or freed with delete() are refused before the Rust function is entered: by a Java exception, or by a Rust panic that ends the process with a message; an altered value or freed memory is never used, and after an exception later calls on other objects work.',
  ['inputs', 'histories'], 'all failing and succeeding call sequences, all error messages',
  'Tests try a couple of failing calls; leaking, double exception, wrong return path or corrupted state after an error needs mixed histories and hostile messages.',
  [M+'java_jni/jni-include.rs', M+'java_jni/fclass.rs', M+'java_jni/rust_code.rs'],
  'jni_throw helpers, unpack_return macros, NULL-check in generated Java, mNativeObj zeroing')
p('J03', 'Java: native objects are freed exactly once, never while in use',
  'Every Rust value owned by a Java object is dropped exactly once, by delete() (called once, repeatedly or never) or by the finalizer after the object becomes unreachable, and not before: an object reachable from Java, passed as an argument or in the middle of a native call stays alive under any garbage collection. Objects moved into Rust by value are not dropped again by Java, arrays and optionals of objects transfer ownership of each element once, and JNI global and local references do not accumulate.',
  ['histories', 'schedules'], 'all sequences of create, call, consume, delete and garbage collection, at any GC point, from any thread',
  'The tests barely force collections; premature finalisation and double free depend on GC timing and on specific sequences.',
  [M+'java_jni/fclass.rs', M+'java_jni/jni-include.rs', M+'java_jni/map_class_self_type.rs'],
  'mNativeObj pointer field, delete()/finalize(), reachability fences, object arrays via NewObjectArray, InternalPointerMarker constructors')
p('J04', 'Java: callbacks reach the right Java method with exact values, on any thread',
  'When Rust calls a method of a trait implemented in Java through foreign_callback, exactly that method of that Java object runs, once, with exactly the passed arguments, and Rust receives the value it returned; calls from Rust-made threads attach and detach correctly and may run concurrently. The Java object stays reachable until Rust drops the callback and becomes collectable afterwards, and long sequences of calls do not exhaust JNI references.',
  ['inputs', 'histories', 'schedules'], 'all callback signatures and values, numbers of calls, calling threads and drop points',
  'Tests call a few callbacks a few times on one thread; method id mix-ups, signature strings, reference leaks (512 local refs) and attach/detach problems need volume, threads and many signatures.',
  [M+'java_jni/finterface.rs', M+'java_jni/jni-include.rs', M+'java_jni/find_cache.rs', M+'java_jni/rust_code.rs'],
  'JavaCallback with global ref and cached method ids, JniEnvHolder attach/detach, CallXxxMethod wrappers')
p('P01', 'Python: values and errors cross the boundary unchanged',
  'For every function and method exported to Python, the Rust side observes exactly the Python argument values and the caller observes exactly the returned value: integers of each width, floats, bools, str, enum items, None/Some, tuples, lists and wrapped objects. A value the Rust type cannot represent raises a Python exception instead of being altered, an Err return raises the module\'s Error with the error text, and the interpreter stays usable afterwards.',
  ['inputs', 'programs'], 'all signatures over the supported types and all Python values, in range or not',
  'One script samples a few values and errors; composition of types, boundaries of each integer width and repeated failures are not covered.',
  [M+'python/mod.rs', M+'python/python-include.rs'],
  'rust-cpython py_class!/py_module_initializer! code with recursive conversion expressions for argument and return types')
p('P02', 'Python: wrapped objects share, live and die with their references',
  'A Rust object exposed to Python is dropped exactly once, when the last Python (and Rust) reference to it goes away, and every Python name bound to it sees the same state; consuming or sharing an object through arguments, tuples, lists or options keeps this. Calls from several Python threads on one object never lose an update.',
  ['histories', 'schedules'], 'all sequences of create, share, mutate, pass, drop, from any number of threads',
  'The test script does not account for drops or use threads; lost or duplicate ownership appears only in particular histories.',
  [M+'python/mod.rs', M+'python/python-include.rs'],
  'py_class! data fields holding Arc/Mutex-style wrappers (self-type storage) and clone_ref of handles')
p('G01', 'Generated output is a deterministic function of the inputs',
  'Running the generator twice with the same configuration and the same inputs produces byte-identical Rust, C++, Java and Python output, whatever the process, hash seeds, environment, working directory, output location or earlier runs in the same process. ',
  ['programs', 'configurations'], 'all input programs, configurations, processes and locations',
  'No test runs the generator twice and compares; hash order and path or time leakage show only across processes and on larger inputs.',
  [M+'lib.rs', M+'typemap.rs', M+'typemap/ast.rs', M+'typemap/merge.rs', M+'cpp/mod.rs', M+'java_jni/mod.rs', M+'python/mod.rs', M+'namegen.rs'],
  'ordered iteration over type graph and generated items, name generators')
p('G02', 'Output directory: only stale files go, unchanged files stay untouched',
  'After a run the output directory holds exactly the files of the current declarations with current contents, whatever was there before (an earlier version of the program, longer, truncated or foreign contents). A file whose contents do not change is not rewritten; with the remove option every other header (.h, .hpp) or Java file (.java) of the output directory is deleted, nothing else is ever deleted or changed, and a run that cannot write a file does not report success.',
  ['histories', 'programs', 'configurations'], 'all sequences of generator runs over changing programs and prior directory states',
  'Tests generate into fresh directories; staleness, truncation and needless rewrites need a history of runs.',
  [M+'file_cache.rs', M+'lib.rs', M+'cpp/mod.rs', M+'java_jni/mod.rs'],
  'FileWriteCache compares with existing contents and registers written paths; removal pass over output dir')
p('G03', 'Rust code that is not flapigen macros passes through unchanged',
  'Every item of the input files that is not a flapigen macro appears in the generated Rust file exactly once, token for token the same and in order, with attributes and doc comments, and nested ordinary macros are untouched. Splitting the same items over several input files of expand_many, or reformatting whitespace and comments, generates equivalent bindings.',
  ['programs'], 'all Rust item sequences around and between flapigen macros, and all splits into files',
  'The tests pass a few small sources; dropping, duplicating, reordering or altering tokens depends on the item kinds and order in the source.',
  [M+'lib.rs', M+'code_parse.rs', M+'source_registry.rs', M+'str_replace.rs'],
  'syn parse, partition into foreign macros and other items, DisplayToTokens')
p('G04', 'The declared interface is reflected completely, correctly and compilably',
  'Any well-formed program of foreign_class, foreign_enum and foreign_callback declarations over supported types is accepted, and for it the generated target-language interface has exactly the declared classes, methods, constructors, enum items and callback methods, under the declared names, aliases, access levels (where the target language has them), static/instance and const/mutable kinds, parameter names (those the target language allows as identifiers) and doc comments, and the generated Rust and C++, Java or Python compile together. Enum items map to the declared Rust variants in every direction, the text of `foreign_code` is part of the class once and verbatim, with null annotations switched on (Java) optional arguments are `@Nullable` and all other objects `@NonNull`, and nothing undeclared is public.',
  ['programs', 'configurations'], 'all accepted interface programs, all three languages and configurations',
  'Expectation tests are regexes over some fragments of fixed programs; features combine (aliases, access modifiers, docs, derive, self types, order of declarations, circular dependencies).',
  [M+'code_parse.rs', M+'types.rs', M+'cpp/fclass.rs', M+'cpp/cpp_code.rs', M+'cpp/fenum.rs', M+'cpp/finterface.rs', M+'java_jni/fclass.rs', M+'java_jni/java_code.rs', M+'java_jni/fenum.rs', M+'java_jni/finterface.rs', M+'python/mod.rs'],
  'parser of the DSL to ForeignClassInfo/ForeignEnumInfo/ForeignInterface and per-language code writers')
p('G05', 'Invalid input is rejected with a diagnostic at the offending place',
  'On any malformed or unsupported declaration the generator stops with an error that names the input file and the line of the offending declaration and says what is wrong, and never hangs, overflows or aborts, or reports success while leaving the declaration out of the output. On success nothing that was declared is silently missing.',
  ['inputs', 'programs'], 'all input texts, including every corruption of valid programs',
  'Tests include a handful of invalid inputs; the parser and the conversion search meet unboundedly many malformed programs.',
  [M+'error.rs', M+'code_parse.rs', M+'lib.rs', M+'typemap.rs', M+'typemap/parse.rs', M+'source_registry.rs'],
  'DiagnosticError with spans per source id, printed by panic_on_parse_error with file:line and context')
p('G06', 'Registered attribute callbacks run exactly once per declared use',
  'A class, enum or method attribute callback registered on the Generator for C++ or Java is invoked exactly once per generated module (the .hpp of a C++ class, the .hpp and the c_*.h of a C++ enum, the .java of a Java class or enum) of each declaration that carries its attribute, with the right class, enum and method names and the complete generated text of that module, and for no other declaration; what it leaves in the text is what the output file contains. Attributes that are neither built in nor registered for that kind of declaration are reported; Python, which has no callbacks, reports all of them.',
  ['programs', 'configurations'], 'all assignments of attributes to classes, methods and enums, all three languages',
  'One or two tests use a single attribute; missing or duplicate calls depend on several attributes, overloads and several classes.',
  [M+'extension.rs', M+'lib.rs', M+'cpp/mod.rs', M+'java_jni/mod.rs', M+'python/mod.rs', M+'code_parse.rs'],
  'extend_foreign_class/extend_foreign_enum called from the language back ends after code generation')
p('G07', 'User typemaps are applied exactly as written, and take precedence',
  "A type mapping given by foreign_typemap! (in merged type maps or in the source) is used for every argument and result of its type, in functions and callbacks, in the directions it is given for, and for no other type: the Rust and the foreign conversion code run as written, each once per crossing and in order (foreign code before Rust code for values that enter Rust, after it for values that leave), text in the code is not altered, and the required modules are included. The same holds for generic mappings (swig_i_type!, swig_f_type!, swig_from_rust_to_i_type! and their kin; where-bounds choose among rules), for mappings by option, for a mapping onto another user's type, for built-in containers of a mapped type, and for a mapping of a type that has a built-in one. In which file a rule is, the order in which files are merged, and rules for other types do not change how a type converts; a rule that can not be applied is rejected with its place.",
  ['programs', 'inputs'], 'all sets of mapping rules and signatures using them, all values',
  'Tests try single rules; which rule is chosen depends on the whole set of rules, generic matches and conversion path lengths.',
  [M+'typemap.rs', M+'typemap/typemap_macro.rs', M+'typemap/typemap_macro/parse.rs', M+'typemap/merge.rs', M+'typemap/ast.rs', M+'typemap/parse.rs'],
  'typemap rule parsing, type graph with conversion edges, shortest path search, generic edge expansion')
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
