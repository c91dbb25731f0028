P('P26', 'The rsharp macros rename and substitute exactly what they are told',
  'An item marked remangle is named by the segments of its path and its own name, joined by two underscores (empty segments and surrounding blanks do not count), including the symbol an exported function is linked by, and can still be used by its own name as the same item. An item marked substitute is the item with every substitute!() that stands as an expression, or in an attribute, replaced by the argument: each as one operand, and nothing else changed. What the macros do not support (other kinds of items, a missing or malformed argument) is a compile error.',
  ['programs'], 'every exported function, struct and enum under every path, and every item and expression under substitute',
  'The unit tests of the macros compare four token streams and four paths, and never compile or run a result.',
  ['crates/rsharp/rust/macro/src/lib.rs', 'crates/rsharp/rust/macro/src/remangle.rs', 'crates/rsharp/rust/macro/src/substitute.rs'],
  [('remangle joins path and name', 'crates/rsharp/rust/macro/src/remangle.rs'), ('substitute visits expressions and attributes', 'crates/rsharp/rust/macro/src/substitute.rs')],
  'property-based testing over generated programs (compile, link and run against a hand-expanded twin)',
  'Batches of generated items are compiled with the real macros and run beside twins written without them; malformed uses have to be refused by the compiler.' + TRUST)

P('P29', 'better_borrow lends exactly as long and as exclusively as the standard traits',
  'Everything that can be borrowed through the standard Borrow and BorrowMut traits lends the same thing, by the same address, through BBorrow and BBorrowMut; a type may also lend a value of its own instead of a reference. A program compiles exactly when no loan is used after its owner moved, changed, was lent in conflict or went out of scope: shared loans can coexist and be copied, an exclusive one stands alone, and what is written through it is what its owner holds afterwards.',
  ['programs'], 'every script of loans, uses, changes, moves and ends of scope over every kind of owner',
  'The crate has two doc examples; that a loan is refused cannot be stated in an ordinary unit test.',
  ['crates/better_borrow/src/lib.rs'],
  [('BBorrow / BBorrowMut and their blanket implementations', 'crates/better_borrow/src/lib.rs')],
  'property-based testing over generated programs (compiled or refused as a borrow model says, run beside the standard traits)',
  'Generated scripts of loans over 22 kinds of owners; a model of the borrow rules says which have to compile, and those run beside twins that use the standard traits.' + TRUST)

P('P27', 'A baseline that was saved comes back as it was',
  'Saving the contracts of a baseline gives a buffer, well-formed by the schema, that says what the baseline held: the contracts with their ids and fields, their objects, and the value of every state, references included. Restoring it (up to the million tables a reader takes), with the contracts registered and their objects restored in any order, gives a baseline with the same contents (0.0 and -0.0 count as equal), which can be saved again, changed and emptied like any other. Saving changes nothing. A contract with a list is refused; a reference to what is not saved never becomes a buffer; a contract that was not saved, or is registered twice, is refused.',
  ['serial'], 'every set of contracts, every graph of objects that refer to each other and to contracts, cycles included, every order of saving and restoring',
  'Its one test saves three objects; references, cycles and orders of saving and restoring, which its two passes exist for, have no end of combinations.',
  ['client/serialize/rust/src/serializer/mod.rs', 'client/serialize/rust/src/deserializer/new/mod.rs', 'client/serialize/rust/src/serializer/handle_map.rs', 'client/serialize/flatbuffers/baseline.fbs'],
  [('Serializer::serialize and the second pass in finish', 'client/serialize/rust/src/serializer/mod.rs'), ('Deserializer::deserialize_objects and finish', 'client/serialize/rust/src/deserializer/new/mod.rs')],
  'property-based testing (round trip, and a reader of the bytes by the schema as reference)',
  'Generated baselines over 20 contract shapes are saved, the bytes read by a reference reader, restored and compared up to the order of a contract\'s objects. The serializer\'s own source is compiled against stand-ins for flatbuffers, flatc, bimap and dynpath, which are not to be had offline.' + TRUST)

P('P28', 'Serialized data is restored as what it says or refused, whatever the bytes',
  'Given any bytes, opening, registering contracts, restoring objects and finishing never panics: what is not a well-formed buffer is refused at once, and a well-formed one yields exactly the contracts, objects and values it says, or an error where it says something impossible: a contract with other fields, an object with too many, too few or mistyped states, a state, contract or object that is not there, a missing string. A stored type equals another, or a type of the model, exactly when they are the same type.',
  ['serial'], 'every buffer: saved ones, ones built by the schema with anything it allows wrong, and mutations of both',
  'Bytes from elsewhere are the case no unit test enumerates; the module documentation promises the validation.',
  ['client/serialize/rust/src/deserializer/new/mod.rs', 'client/serialize/rust/src/types/eq_impl.rs'],
  [('find_serialized_contract / validate_obj_matches_contract', 'client/serialize/rust/src/deserializer/new/mod.rs'), ('comparison of types', 'client/serialize/rust/src/types/eq_impl.rs')],
  'structured and mutational fuzzing against a reference decoder',
  'Buffers forged by the schema with faults, saved buffers, and mutations of both are restored and compared with what a reference decoder reads.' + TRUST)

P('P30', 'The C# wrappers are generated whole, fit the C API and replace nothing unasked',
  'A run of the wrapper generator into a directory that is absent or empty, or of any content with -f, succeeds and leaves exactly one class of each kind (Keyframe, State, StateId, StateHandle) for each of the 14 property types: the same text on every run, with the constructors, members and ownership of its kind and the types of its value, calling only functions the library exports, with their arguments. Without -f a directory that is not empty is refused and stays as it was. Files that are not the generator\'s own are never touched. Given other data and another template, the library renders a class with exactly that data, unescaped, and reports a missing value.',
  ['codegen'], 'every history of runs, with and without -f, and of other changes to the directory; every class data and template',
  'The generator has no tests; what it makes is only compiled by tools that are not part of the build.',
  ['client/codegen_wrapped/src/lib.rs', 'client/codegen_wrapped/src/main.rs', 'client/codegen_wrapped/src/type_info.rs', 'client/codegen_wrapped/src/template_keyframe.rs', 'client/codegen_wrapped/src/template_state.rs', 'client/codegen_wrapped/src/template_state_handle.rs', 'client/codegen_wrapped/src/template_state_id.rs', 'client/codegen_wrapped/opaque_template.cs.tpl'],
  [('Codegen::new refuses, render_to_file renders', 'client/codegen_wrapped/src/lib.rs'), ('types of the 14 kinds of values', 'client/codegen_wrapped/src/type_info.rs')],
  'stateful property-based testing over directories, against an independent renderer and the header of the C API',
  'The generator\'s own binary runs over generated histories of a directory, and its library over generated data and templates; texts are compared up to layout and comments. No C# compiler is to be had, so that the classes are not compiled.' + TRUST)

P('P31', 'The C# boxes are generated whole, fit the C API and replace nothing unasked',
  'A run of the box generator into a directory that is absent or empty, or of any content with -f, succeeds and leaves exactly one class for each of the 11 types of plain values: the same text on every run, importing its new and drop functions by the names the library exports them by, with the C# types that correspond. Without -f a directory that is not empty is refused and stays as it was. Files that are not the generator\'s own are never touched.',
  ['codegen'], 'every history of runs, with and without -f, and of other changes to the directory',
  'The generator has no tests; what it makes is only compiled by tools that are not part of the build.',
  ['crates/rsharp/codegen/src/codegen.rs', 'crates/rsharp/codegen/src/main.rs', 'crates/rsharp/codegen/rbox.cs.tpl', 'crates/rsharp/rust/src/rbox.rs'],
  [('Codegen::new refuses, render_all renders', 'crates/rsharp/codegen/src/codegen.rs')],
  'stateful property-based testing over directories, against an independent renderer and the header of the C API',
  'The generator\'s own binary runs over generated histories of a directory; texts are compared up to layout and comments. No C# compiler is to be had, so that the classes are not compiled.' + TRUST)

P('P32', 'The types keep apart what belongs apart, and what is borrowed from what changes',
  'Handles and ids of states, channels, objects and contracts, arena indices, keyframes, values, and the kinds of time of one type are never accepted for those of another; only the 28 property types can be stored. Handles and ids of every type are plain copies that can be compared, sent to and used from other threads. What a baseline, realm or arena lent is out of use before it next changes or ends, is written only through an exclusive loan, and may be shared otherwise. A program breaking these rules does not compile; one that keeps them does, and sees through every loan the value last written.',
  ['programs'], 'every program over a realm or baseline: any contracts, any script of lookups, loans, writes, removals and threads',
  'A unit test cannot state that a program must not compile, and samples one program of those that must.',
  ['client/rust/src/baseline.rs', 'client/rust/src/realm.rs', 'client/rust/src/contract/properties/states/handle.rs', 'client/rust/src/contract/properties/channels/handle.rs', 'crates/datastructures/arena/src/lib.rs', 'client/rust/src/time/mod.rs', 'client/rust/src/contract/properties/traits.rs'],
  [('typed handles and lookups', 'client/rust/src/baseline.rs'), ('typed index', 'crates/datastructures/arena/src/lib.rs')],
  'property-based testing over generated programs (compiled or refused as a borrow and type model says, run against a model of the values)',
  'Generated scripts of a client over two generated contracts; a model says which have to compile and what they see, and each comes with one that breaks a rule and has to be refused.' + TRUST)


P('P33', 'What is known dynamically reaches typed code once, and as it is',
  'From any crate, and whatever names are in scope, each apply_to macro (ids, handles, states, channels, keyframes, values of a property, and loans of them) evaluates its argument once and calls the closure exactly once, with precisely the typed value that is inside, owned or lent as it was passed, and gives back the result; every one of the 28 types takes part. What is written through a lent value is written to the original. A program that hands over a value of another kind, has code for one type only, returns different types, or uses what it gave away does not compile.',
  ['programs'], 'every use of the macros: any argument, form of closure, type inside and names in scope',
  'The one test applies one macro to one value; the macros are meant for other crates, which no unit test of this one is.',
  ['client/rust/src/contract/properties/dynamic/__macro.rs'],
  [('apply_to_prop and the macros made by derive_apply', 'client/rust/src/contract/properties/dynamic/__macro.rs')],
  'property-based testing over generated programs (compiled or refused as expected, run against the values put in)',
  'Generated programs use all the macros over all types in many forms and scopes; programs that misuse them have to be refused by the compiler.' + TRUST)


P('P34', 'The circles of the demo are where their states are',
  'The circle game starts with one object of its contract (states x and y) in the fork per cell of a ten by ten grid, 50 apart around the origin, each drawn once, at its x and y. In every frame each x and y of a circle that is drawn walks by at most 1 in either direction, and every circle is drawn where its states were before or, all of them, after that walk: whatever was written to the states, by a system or by an action, or to the transforms, and whichever circles were removed. The other parts of a transform, other entities, objects and states, and the states of circles that are not drawn any more stay as they are.',
  ['demos'], 'every history of frames, writes, actions and removals',
  'The one test of the demo is empty, and two systems share the engine in an order that the scheduler chooses.',
  ['demos/circle_game/src/lib.rs', 'demos/circle_game/src/circle.rs', 'demos/circle_game/src/circle_bundle.rs', 'demos/circle_game/src/components.rs'],
  [('setup, random_walk and sync_transforms', 'demos/circle_game/src/lib.rs')],
  'stateful property-based testing over frames, against a model of the positions',
  'The app of the demo runs frame by frame under generated histories of writes, actions, changes and removals. Its windows, sound and rendering are left out: DefaultPlugins and the renderer of the shapes are stand-ins without a display or a graphics device.' + TRUST)
