R = 'crates/rsharp/rust/'

P('P20', 'The C API sees and changes the baseline exactly as Rust does',
  'Whatever C reads through a baseline (a state, the keyframes of a channel, an object, a contract with its id, version and members, the kind of the baseline) is what Rust has there at that moment, and what C writes is what Rust reads from then on, in exactly the state that was named. C binds an id to the same field Rust does, and ids name the contract they belong to. A C call that names something removed or foreign never returns anything: it ends the process instead of giving out other memory.',
  ['histories', 'inputs'], 'every history mixing Rust and C operations, every property type the C API has an instance for',
  'No test calls the exported C functions at all.',
  [B + 'baseline.rs', B + 'object.rs', B + 'contract/mod.rs', PR + 'states/mod.rs', PR + 'states/id.rs', PR + 'channels/mod.rs', PR + 'channels/channel.rs'],
  [('c_api modules, monomorphized per type', B + 'baseline.rs')],
  'differential stateful property-based testing through the exported symbols of a shared library',
  'Histories that mix Rust and C calls against one model; dead and foreign handles are used in a forked process.' + TRUST)

P('P21', 'Values owned by C keep their contents and are released exactly once',
  'Every value C makes (boxed values, strings, states, keyframes, lists, channels) holds exactly what it was made of until it is changed or released; a value handed to another function is owned by that function from then on. Releasing everything that is still owned, each once, leaves no memory behind, frees nothing twice and never touches freed memory, whatever the order.',
  ['histories'], 'every sequence of making, combining, changing and releasing C values over all types of the C API',
  'No test calls the exported C functions; leaks and double frees need histories and an allocator that watches.',
  [R + 'src/rbox.rs', R + 'src/rvec.rs', R + 'src/string.rs', PR + 'states/mod.rs', PR + 'channels/channel.rs'],
  [('boxes', R + 'src/rbox.rs'), ('State / Keyframe / Channel constructors', PR + 'channels/channel.rs')],
  'stateful property-based testing over a heap of C values with a checking allocator',
  'Random histories over a pool of C values against a model, with allocations counted and freed memory poisoned.' + TRUST)

P('P22', 'Strings cross the C boundary unchanged or not at all',
  'A string copied from valid UTF-8 or UTF-16 (any characters, embedded NULs, empty) is read back by C as exactly its UTF-8 form and seen by Rust as exactly that string, and does not share memory with its source. Input that is not valid in its encoding is refused: the call never returns a string.',
  ['inputs'], 'every byte sequence and every sequence of UTF-16 units',
  'No test passes a string over the boundary from Rust; validity has too many corners for samples.',
  [R + 'src/string.rs'], [('String__copy_utf8 / String__copy_utf16 / String__value', R + 'src/string.rs')],
  'property-based testing (round trips, and refusal of mutated encodings, against the standard library)',
  'Generated and mutated strings in both encodings; invalid ones are passed in a forked process.' + TRUST)

P('P23', 'C lists of keyframes behave like a vector',
  'A list of keyframes made through C agrees with a vector after any sequence of pushing, replacing and reading: its length, each element in its place, nothing lost when it grows, replaced elements released. Access past the end never returns. A channel made of a list has exactly its elements, by ascending time.',
  ['histories'], 'every sequence of list operations on every type the C API has an instance for',
  'No test uses the lists.',
  [R + 'src/rvec.rs', PR + 'channels/channel.rs'], [('rvec_fns!', R + 'src/rvec.rs')],
  'stateful model-based property testing through the exported symbols',
  'Random list histories against a vector, with a checking allocator; accesses past the end happen in a forked process.' + TRUST)

P('P24', 'Contracts with a C API keep every argument in its own field',
  'An object created through the C API of the example and ball contracts has each argument in the field of that name, which the id of that name reads, writes and binds; removal and unregistration through C remove exactly what they name. Registering twice, removing twice or as another contract, and creating under a contract that is gone never return. Arguments that are handed over are released exactly once.',
  ['histories', 'inputs'], 'every history of C calls on both contracts and all argument values',
  'No Rust test calls these functions; the C# tests do so with a handful of values.',
  ['client/contract_example/rust/src/lib.rs', 'client/contract_example/rust/src/states.rs', 'demos/unity_states/rust/src/lib.rs'],
  [('ExampleContract__*', 'client/contract_example/rust/src/lib.rs'), ('BallContract__*', 'demos/unity_states/rust/src/lib.rs')],
  'stateful model-based property testing through the exported symbols',
  'Random histories of C calls on both contracts against a model.' + TRUST)

P('P25', 'C programs written against the header build, link and behave as it says',
  'The C header the crates generate declares every function of the C API, for every property type it supports, and nothing the library does not export; it is valid C and C++. A program written against it, in C or C++, links with the library and sees each function take, by its declared position and type, and give back exactly what it was given. Opaque types of different kinds or property types are different types: passing one where another is declared is refused by the compiler.',
  ['programs'], 'every program written against the header, in C and in C++, over all functions and property types of the C API',
  'No test compiles anything against the header; the C# tests use hand-written declarations of a few functions.',
  [R + 'src/rbox.rs', R + 'src/string.rs', R + 'src/rvec.rs', B + 'baseline.rs', B + 'object.rs', B + 'contract/mod.rs', PR + 'states/mod.rs', PR + 'states/id.rs', PR + 'channels/mod.rs', PR + 'channels/channel.rs',
   'client/contract_example/rust/src/lib.rs', 'demos/unity_states/rust/src/lib.rs'],
  [('c_api modules, monomorphized and renamed per type', B + 'baseline.rs'), ('remangle names types and symbols', 'crates/rsharp/rust/macro/src/remangle.rs')],
  'property-based testing over generated C and C++ programs (compile, link and run; type confusions refused)',
  'Random C and C++ programs over the whole header, built with gcc and g++ and run with the library, and programs with a type exchanged that have to be refused.' + TRUST)
