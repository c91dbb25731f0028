#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below, so that they stay in step."""
import json, os

ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
PROPS = []


def P(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, hook=None, observe=None):
    PROPS.append(dict(
        id=id, technique=technique, note=note, na=na,
        line=dict(
            id=id, title=title, statement=statement,
            quantifier=dict(over=over, text=text), why_tests_cant=why,
            anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                         observe_at=observe or [], hook_needed=hook))))


B = 'client/rust/src/'
PR = B + 'contract/properties/'
TRUST = (' Trusts the reference model, the generators (whose reach the evidence shows) and the checking '
         'allocator of the harness; says nothing about inputs it did not generate.')

P('P01', 'Arena handles stay valid, distinct and are never resurrected',
  'A handle given out by an arena refers to the value inserted with it, unchanged by any other operation, until exactly that value is removed; from then on every lookup, removal and index through it fails, however often its slot is reused. Length, emptiness, capacity, reserving, cloning, collecting, and iteration (shared, mutable and owning, from either end and both, its length hints at every step included) agree with a plain map from handle to value. A handle is freely convertible to and from its raw form, and two handles are equal only if they denote the same insertion.',
  ['histories'], 'every sequence of arena operations with live, stale and foreign handles',
  'The arena crate has no tests of its own; the baseline tests insert and remove a handful of times and never reuse a slot.',
  ['crates/datastructures/arena/src/lib.rs'],
  [('Arena wraps a generational arena and tags handles with the element type', 'crates/datastructures/arena/src/lib.rs')],
  'stateful model-based property testing (arena against a map, with stale handles)',
  'Random operation histories with shrinking against a map model, leaks and memory misuse observed by a checking allocator.' + TRUST)

P('P02', 'Live objects keep exactly the values last written to them',
  'From its creation until its removal, each state and channel of an object reads back, through every static and dynamic accessor, exactly the value it was created with or the one last written through its own handle. Creating, writing, removing, registering or unregistering anything else never changes it, adds to it or makes its handle fail.',
  ['histories'], 'every history of registering, creating, reading, writing, removing and unregistering over any mix of contracts, property types and objects, in either baseline',
  'Unit tests create one object of one contract and never interleave objects, types and removals.',
  [B + 'baseline.rs', B + 'object.rs', PR + 'states/mod.rs', PR + 'channels/mod.rs'],
  [('typed arenas per property type, handles kept per object', B + 'baseline.rs'), ('state/channel accessors', B + 'baseline.rs')],
  'stateful model-based property testing (baseline against a map model)',
  'Histories over 12 contracts covering all 28 property types against a map model audited through every accessor.' + TRUST)

P('P03', 'Creating an object is validated and all-or-nothing',
  'Creating an object succeeds exactly when the contract handle is live and of the contract named, the numbers of states and channels equal the ones the contract declares, and every value has the declared type at its position; the new object then has exactly those states and channels in the given order, and is a member of that contract. A rejected creation, and one in which an iterator of the caller panics, leaves the baseline exactly as it was: no object, no contract membership and no orphaned state or channel remains.',
  ['histories', 'inputs'], 'every combination of contract handle (live, stale, of another contract), value lists of right and wrong length and type, at any point of a history',
  'Unit tests only create well-formed objects; nothing exercises a creation that fails half way.',
  [B + 'baseline.rs', B + 'contract/mod.rs'],
  [('object_create validates counts and types', B + 'baseline.rs'), ('bind_states / bind_channels', B + 'baseline.rs')],
  'stateful model-based property testing with generated malformed creations',
  'Well-formed and malformed creations at random points of histories, the whole baseline audited after each.' + TRUST)

P('P04', 'Removal is complete and precise',
  'Removing an object, or unregistering a contract, makes every handle of exactly those objects, their states, their channels and the contract entry fail from then on, and no other. Unregistering removes all objects of that contract; both release the memory of what they removed, so that repeating a create-and-remove history never accumulates anything. A removal or unregistration that names the wrong contract, or something already removed, fails without effect.',
  ['histories'], 'every history with removals and unregistrations, valid and invalid, single and repeated',
  'The unit tests remove one object at the most and look neither at the fields that remain nor at memory.',
  [B + 'baseline.rs', B + 'object.rs', B + 'contract/mod.rs'],
  [('object_remove', B + 'baseline.rs'), ('unregister_contract', B + 'baseline.rs')],
  'stateful model-based property testing with allocation accounting',
  'Random histories with removals against a model, live memory compared over repeated cycles.' + TRUST)

P('P05', 'Contract registry: one live registration per contract, exact members',
  'A contract can be registered exactly when it is not registered already, and again after it was unregistered; the handle, id and field ids of every registration refer to that registration only. The members a contract reports are at all times exactly the objects created under it and not yet removed, and iterating all objects yields every live object once.',
  ['histories'], 'every history of registering, unregistering, creating and removing over several contracts',
  'The unit tests register each contract once.',
  [B + 'baseline.rs', B + 'contract/mod.rs', B + 'object.rs'],
  [('register_contract / unregister_contract', B + 'baseline.rs'), ('ContractData keeps its objects', B + 'contract/mod.rs')],
  'stateful model-based property testing', 'Random histories over twelve contracts against a model of registrations and membership.' + TRUST)

P('P06', 'Field ids bind only to objects of their own contract registration',
  'Binding a state or channel id, static or dynamic, to an object yields the handle of exactly that field of that object when the object belongs to the contract registration the id comes from and the field has the type asked for. In every other case (another contract, another registration, a removed object, another type, a field index that does not exist) it fails and never yields a handle to something else.',
  ['histories', 'inputs'], 'every pairing of ids and objects, of live, stale and foreign registrations, in any history',
  'The unit tests bind matching ids and objects only.',
  [B + 'baseline.rs', PR + 'states/id.rs', PR + 'channels/mod.rs'],
  [('bind_state / bind_channel check the contract', B + 'baseline.rs')],
  'stateful model-based property testing (all id-object pairings)', 'Pairings of live, stale and foreign ids and objects over random histories against a model.' + TRUST)

P('P07', 'A contract enumerates its fields exactly as declared',
  'The states and channels a contract enumerates have the declared number, order, types and positions, and each enumerated id equals the one its named accessor gives. This holds however the enumeration is consumed: step by step, with nth or skip, from the middle, past the end, by size hint or count, and in a clone.',
  ['inputs', 'programs'], 'every contract shape and every way of consuming the enumeration',
  'One unit test enumerates one contract with a plain loop.',
  [B + 'contract/mod.rs', PR + 'states/iter.rs', PR + 'channels/mod.rs', 'client/contract_macro/src/lib.rs'],
  [('StatesIter / ChannelsIter over type ids', PR + 'states/iter.rs')],
  'property-based testing of iterator scripts against a vector model', 'Random iterator scripts over all contract shapes of the harness against a list of declared fields.' + TRUST)

P('P08', 'The contract macro turns every struct of property types into its contract',
  'For every plain struct declaration whose fields are annotated property types, the contract macro generates a contract that compiles and whose field count, order, types, names and accessors, and use through a baseline, are those declared, whatever the visibility of the fields, the order of states and channels, and the surrounding module. A declaration that cannot become a contract (an enum, a union, a tuple or unit struct, reserved field names) is rejected with a compile error.',
  ['programs'], 'every struct declaration over the 28 property types, and every kind of malformed declaration',
  'The macro crate has two fixed declarations as tests.',
  ['client/contract_macro/src/lib.rs', B + 'contract/mod.rs'],
  [('Contract macro', 'client/contract_macro/src/lib.rs')],
  'property-based testing over generated programs (compile and run)', 'Batches of generated declarations are compiled against the real macro and run; the expected contract comes from the generator.' + TRUST)

P('P09', 'Dynamic values convert losslessly and only to their own type',
  'Turning any property value, list of values, state, handle or channel into its dynamic form and back gives the same value, and the type the dynamic form reports is the one it was made from. Asking a dynamic value for any other type fails, for owned, shared and mutable access alike, without changing the value; a mutable view writes through to the value it came from.',
  ['inputs'], 'every value of each of the 28 property types, against every type asked for',
  'The unit tests convert a couple of values of a few types.',
  [PR + 'dynamic/property.rs', PR + 'dynamic/primitive.rs', PR + 'dynamic/vec.rs', PR + 'dynamic/from_impls.rs', PR + 'dynamic/__macro.rs', PR + 'channels/dyn_channel/mod.rs'],
  [('From/TryFrom between static and dynamic types', PR + 'dynamic/from_impls.rs'), ('apply_to_* macros', PR + 'dynamic/__macro.rs')],
  'property-based testing (round trips over the full type matrix)', 'Round trips and refusals over generated values of all 28 types.' + TRUST)

P('P10', 'Dynamic and static equality agree',
  'Comparing two dynamic values, owned or borrowed, or a dynamic with a static one, gives the result of comparing the underlying values when their types are the same, and inequality when they differ. In particular NaN equals nothing, zero equals minus zero, and a value never equals the same number or text in another type.',
  ['inputs'], 'every pair of values of the 28 types, in every owned/borrowed/static form',
  'The unit tests compare a few integers.',
  [PR + 'dynamic/eq_impls.rs', PR + 'dynamic/borrow_impls.rs'],
  [('PartialEq between owned, borrowed and static forms', PR + 'dynamic/eq_impls.rs')],
  'differential property-based testing', 'Pairs of equal, nearly equal and different values over all types, in every form of comparison.' + TRUST)

P('P11', 'Dynamic handles reach the same field as static ones',
  'A dynamic id or handle made from a static one reports its type, compares and converts back like it, and reads, writes and binds the very same field; converting it to any other type fails. Through a dynamic handle no access can reach a field of another type, object or baseline.',
  ['inputs', 'histories'], 'every state and channel handle of all 28 types over objects in both baselines',
  'The unit tests use static handles almost only.',
  [PR + 'states/dyn_handle.rs', PR + 'states/dyn_state.rs', PR + 'channels/dyn_handle.rs', B + 'baseline.rs'],
  [('DynStateHandle / DynChannelHandle', PR + 'states/dyn_handle.rs')],
  'differential property-based testing (dynamic against static access)', 'Random worlds, every access made both ways and compared.' + TRUST)

P('P12', 'A channel holds exactly its keyframes, in order of time',
  'A channel made from any collection of keyframes holds exactly those keyframes, each with its own value and time, none lost, added or altered, sorted by ascending time. This holds for every property type, any number of keyframes, equal, negative and infinite times, and even when some times are not a number: the others are then still sorted.',
  ['inputs'], 'every collection of keyframes over all property types',
  'No unit test builds a channel from unsorted keyframes.',
  [PR + 'channels/channel.rs'],
  [('Channel::new sorts by time', PR + 'channels/channel.rs')],
  'property-based testing (sorted permutation)', 'Generated keyframe lists, with duplicates, NaN and up to some thousand entries, against the multiset given.' + TRUST)

P('P13', 'Tweening stays between its end points and arrives',
  'Easing an integer property from one value to another gives the start at 0, exactly the target at 1, and in between the start plus the truncated fraction of the difference: never outside the two end points, monotonic in time, for every pair of values of every integer property type, ascending or descending. A fraction past the ends never panics or wraps around. A value that cannot be tweened stays at the start until the fraction reaches 1 and is the target from then on.',
  ['inputs'], 'every pair of end points of every integer type and every fraction, and every easing function',
  'The unit tests ease from -2 to 8 at eight points.',
  [PR + 'channels/misc.rs'],
  [('IntTweenable and JumpTweenable', PR + 'channels/misc.rs')],
  'property-based testing against exact wide arithmetic', 'Generated end points and fractions over the eight integer types against exact 128-bit arithmetic within the precision of f64.' + TRUST,
  hook='re-export of the tweenables (cfg constellation_verif)')

P('P14', 'Tick arithmetic saturates and unit conversions are exact',
  'Adding and subtracting ticks gives the exact result, or the nearest representable one when it does not fit; scaling gives the exact product with the scale rounded down to a tick, likewise clamped. No operation panics or wraps; the assigning forms agree with the plain ones, order and equality are those of the tick counts, whole seconds are the count divided by the ticks per second and truncated, fractional seconds and scale factors are accurate to their floating point precision, and the default scale leaves every tick count unchanged.',
  ['inputs'], 'every pair of tick counts and every scale',
  'One unit test computes three fixed examples.',
  [B + 'time/mod.rs'],
  [('saturating operators of Ticks', B + 'time/mod.rs'), ('fixed point TimeScale', B + 'time/mod.rs')],
  'property-based testing against exact wide arithmetic', 'Tick counts and scales with the corners over-represented, and a grid of the corners enumerated, against 128-bit arithmetic.' + TRUST)

P('P15', 'Time warps map parent time to channel time by their formula',
  'Warping a parent time gives the time elapsed since the offset, scaled by the factor and rounded down, saturating at each step, for every offset, factor (also zero and negative) and parent time. The default warp changes nothing, the two ways of applying a warp agree, later parent times never map to earlier channel times under a factor that is not negative (nor to later ones under one that is not positive), and warping changes neither its input nor the warp.',
  ['inputs'], 'every parent time, offset and scale, and chains of warps',
  'One unit test computes three fixed examples.',
  [B + 'time/mod.rs'],
  [('TimeWarp::apply', B + 'time/mod.rs')],
  'property-based and metamorphic testing against exact wide arithmetic', 'Generated warps and times, and chains of them, against 128-bit arithmetic.' + TRUST)

P('P16', 'The engine applies each queued collaction once, in order',
  'Collactions sent to an engine, from any number of threads, are each applied exactly once, in the order each sender sent them, one per apply call, and nothing is applied or lost otherwise. With nothing pending apply reports it at once or after the given timeout, and reports disconnection only once all senders are gone and the queue is drained; a bounded queue accepts exactly as many collactions as its capacity before it pushes back.',
  ['schedules', 'histories'], 'every interleaving of senders and of the engine, every queue capacity',
  'No unit test touches the engine.',
  [B + 'engine.rs'],
  [('bounded or unbounded channel into the engine', B + 'engine.rs')],
  'stateful property-based testing, single- and multi-threaded, against a queue model', 'Random scripts of sends, applies and disconnections against a queue model, and racing sender threads whose order is recovered from what was written.' + TRUST,
  hook='Collaction::verif_new (cfg constellation_verif)')

P('P17', 'A collaction applies entirely or not at all',
  'Applying a collaction performs its actions in order, each seeing the effect of those before it, and accepts it exactly when every action succeeds. If any action fails the collaction is rejected and every state of the realm, in both baselines, is exactly what it was before, whatever came before or would have followed the failing action; the rejected collaction comes back with the data it was sent with.',
  ['histories', 'fault_sequences'], 'every sequence of asserts and writes on any states, with a failure at every position, and every history of collactions',
  'No unit test touches the engine.',
  [B + 'engine.rs', B + 'action/mod.rs', B + 'action/property.rs'],
  [('apply_collaction reverses what it applied', B + 'engine.rs')],
  'stateful model-based property testing with failures injected at every position', 'Collactions over all property types, with an invalid action at a random position, against a model realm.' + TRUST,
  hook='Collaction::verif_new (cfg constellation_verif)')

P('P18', 'An action affects exactly its own state, and only when it fits',
  'A write replaces the value of exactly the state it names in the fork baseline by its data, touching neither another state nor the main baseline; an assert changes nothing and passes exactly when the state equals its data (so never for NaN). An action whose handle is dead, or whose data has another type than its state, fails without effect and without panicking, and every action reports its own kind.',
  ['inputs', 'histories'], 'every action over every property type, with valid, dead and mismatched handles and data',
  'No unit test touches actions.',
  [B + 'engine.rs', B + 'action/property.rs'],
  [('apply_action', B + 'engine.rs')],
  'model-based property testing over single actions', 'Single actions over all property types and handle conditions, the whole realm audited after each.' + TRUST,
  hook='Collaction::verif_new (cfg constellation_verif)')

P('P19', 'Realm time and the two baselines are independent',
  'Whatever happens to one baseline of a realm is never visible in the other: objects, contracts, values and handles of main and fork evolve separately, and each baseline reports the kind it was made with. Realm time starts at zero and is moved only by ticking the engine, by exactly the ticks given, saturating at the largest representable time.',
  ['histories'], 'every interleaving of operations on both baselines and of ticks',
  'No unit test uses a realm with both baselines.',
  [B + 'realm.rs', B + 'engine.rs', B + 'baseline.rs'],
  [('Realm::baseline / baseline_mut', B + 'realm.rs'), ('Engine::tick', B + 'engine.rs')],
  'stateful model-based property testing', 'Histories interleaved over both baselines and time against two independent models.' + TRUST)

# ---- written later in this file: P20 and up ----

exec(open(os.path.join(ROOT, 'tools', 'props_ffi.py')).read())
exec(open(os.path.join(ROOT, 'tools', 'props_more.py')).read())


def main():
    have = [l.split()[0] for l in open(os.path.join(ROOT, 'checks.txt')) if l.strip()]
    commits = ['f987d70']
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p['line'], ensure_ascii=False) + '\n')
    checks, na = [], []
    for p in PROPS:
        assert len(p['line']['title']) <= 80, p['id']
        if p['na']:
            na.append(dict(property=p['id'], reason=p['na']))
        elif p['id'] in have:
            checks.append(dict(property=p['id'], quick_cmd='./check ' + p['id'], thorough_cmd='./check ' + p['id'],
                               technique=p['technique'], level='exploration', level_note=p['note']))
        else:
            na.append(dict(property=p['id'], reason='Not claimed yet: its check is under construction.'))
    m = dict(version=1, setup_cmd='./setup',
             hooks=dict(guard='constellation_verif', enable='RUSTFLAGS="--cfg constellation_verif" (set in env.sh)', source_commits=commits),
             checks=checks, not_applicable=na,
             notes='Written by tools/gen.py. ./check replay FILE repeats the case of a replay file. checks.txt maps each property to what decides it.')
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
    open(os.path.join(ROOT, 'MANIFEST.json'), 'a').write('\n')


main()
