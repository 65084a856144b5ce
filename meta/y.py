YS0="legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-base.h"
YS='legacy/Fierro_V0/src/Yaml-Serializable/include/'
BASE=YS0
SER=YS+'yaml-serializable.h'
CON=YS+'yaml-serializable-containers.h'
TYD=YS+'type-discrimination.h'
ENU=YS+'serializable-enum.h'
STR=YS+'serializable-struct.h'
CE=YS+'configuration-validation.h'
import os
TESTS='The 30 gtest cases load a few hand-written documents into a few fixed structs'
P=[
dict(id='Y01',title='Every declared field is loaded from and saved under exactly its own key',
 statement='For every configuration type, loading a document sets each declared field whose key is present from that key and from no other, and sets nothing else. Saving writes every declared field, own or inherited, under its own key and from that field only. Sibling fields never exchange, share or lose values.',
 over=['inputs','programs'],qt='every document and every combination of present/absent keys, for structs with plain, optional, pointer, container, enum, nested and inherited fields',
 why=TESTS+'; a key/field mix-up that needs a particular subset of keys, nesting depth or field kind is outside them.',
 files=[STR,SER,CON,BASE],mech=[('field list expansion','STR: SERIALIZABLE_STRUCT field macros'),('per-field load and save','STR: deserialize/serialize generated per struct; SER: Yaml::deserialize')],
 tech='path-sensitive abstract interpretation of the instantiated loaders and savers (AST facts), provenance rule',
 note='All paths of the real template instantiations for a witness family of types that covers every field kind; trusts the mini-YAML node model (checked separately by the P checks).'),
dict(id='Y02',title='A key missing from the document leaves its field untouched',
 statement='Loading a document in which a declared key is absent leaves the corresponding field at the value it had before the load, on success and on failure alike. No field is changed without its key having been looked up.',
 over=['inputs'],qt='every document and every subset of absent keys, in both validating and raw loads',
 why=TESTS+'; defaults survive in the sampled ones, which says nothing about other field kinds or about failing loads.',
 files=[STR,SER,CON,BASE],mech=[('absent-key guard','CON: deserialize overloads; SER: Impl::deserialize')],
 tech='path-sensitive abstract interpretation; write-effect rule under the absent-key path condition',
 note='Covers each field kind of the witness family; user-written derive hooks are outside the statement and are modelled as hooks.'),
dict(id='Y03',title='Missing required keys are always rejected',
 statement='When a required key of a type, its bases, or a present nested object is absent, the load fails with a configuration error that names a missing required key, and the object is not partially filled from that level of the document. When all required keys are present no such error is raised.',
 over=['inputs'],qt='every document, every subset of required keys missing, at every nesting level and inheritance level',
 why='Tests remove one required key from one struct; inherited and nested required keys in combination are not sampled.',
 files=[STR,SER],mech=[('required-key check','STR: validate_required_fields<T>')],
 tech='path-sensitive abstract interpretation; must-throw rule',note='Exception type, key name and absence of writes are read off every abstract path.'),
dict(id='Y04',title='Configuration errors carry the exact path to the offending field',
 statement='An error raised while loading a nested value reaches the caller as a configuration error whose field path lists every enclosing key and list position, outermost first, ending at the offending field. The original message is kept and the error is never swallowed.',
 over=['inputs','fault_sequences'],qt='an error raised by any value at any nesting depth, in any container, by parsing or by a user hook',
 why='Tests compare a couple of messages for fixed nestings; every container kind x nesting x failing point needs the rule itself.',
 files=[SER,CON,BASE,CE],mech=[('path qualification','CE: ConfigurationException; STR: field loading'),('list positions','CON: indexed loading')],
 tech='path-sensitive abstract interpretation with exceptional edges; term evaluation of the path string',
 note='Each call that can fail is forked into success and failure; the field path is evaluated symbolically as a string of keys and indices.'),
dict(id='Y05',title='Derive and validate hooks run once, in order, after loading',
 statement='A validating load runs, for every class of the inheritance chain that defines them, its derive and then its validate hook exactly once, base classes before derived ones, and only after all of that class\'s fields have been loaded. Values held in lists, optionals and pointers get their own hooks exactly once before they become visible in the container.',
 over=['inputs','programs'],qt='every document, every combination of hooks along a two-level inheritance chain, every container kind',
 why='Tests exercise derive/validate in single-level structs; order relative to loading and multiplicity are not observed there.',
 files=[STR,SER,CON,BASE],mech=[('hook order','STR: generated deserialize; SER: derive/validate')],
 tech='event-order (typestate) rule over all abstract paths',note='Witness hooks are opaque calls; the rule counts and orders them on every path.'),
dict(id='Y06',title='Raw loads and saves never run user hooks',
 statement='A raw load or raw save of a configuration object runs no derive or validate hook of that object or of anything nested in it, at any depth. Strict validation uses only raw loads and saves before it accepts a document.',
 over=['inputs','programs'],qt='every document and every nesting of types',
 why='No test has a nested type with a failing hook under a raw load.',
 files=[STR,SER,CON,BASE],mech=[('raw flag propagation','BASE and CON: the raw parameter of every deserialize/serialize')],
 tech='call-effect analysis: reachability of hooks with the raw flag set, per path',note='Flag propagation is followed through every nested call of the instantiations.'),
dict(id='Y07',title='Strict loading rejects every key and entry nothing consumes',
 statement='A strict load accepts a document only if every non-empty key and every list entry in it, at any depth, is consumed by at least one of the objects being loaded. Anything else raises a configuration error that gives the full path of the unexpected key or entry, raised before any hook of the objects has run.',
 over=['inputs'],qt='every document, at every depth, for one or several objects loaded from it',
 why='Tests try a few unknown keys; a comparison that skips one kind of node or stops early passes them.',
 files=[SER,CE],mech=[('subset comparison','CE: validate_subset'),('strict entry points','SER: from_strict, from_file_strict')],
 tech='path-sensitive abstract interpretation of the comparison with loop-coverage (induction) rule',note='Completeness of the iteration is shown from the loop structure: every turn either compares the pair, skips an empty value, or throws.'),
dict(id='Y08',title='Fixed-size arrays accept exactly their own length',
 statement='Loading a list into a fixed-size array succeeds only when the list has exactly as many entries as the array, and then entry i lands in slot i for every i. A list of any other length is a configuration error that stores nothing, and no slot outside the array is ever written.',
 over=['inputs'],qt='every list length and every array length, with elements of plain, nested or container type',
 why='Tests use one length per array; off-by-one or partial fills for other lengths are not sampled.',
 files=[CON],mech=[('array loading','CON: array overloads')],tech='bounds and index-correspondence rule over all abstract paths of the instantiations',note='Array extents 1..3 in the witness family are unrolled; the length guard is proved on every path.'),
dict(id='Y09',title='Lists and sets are replaced by exactly the entries of the document',
 statement='Loading a list into a vector or set discards what the container held and inserts exactly one value per document entry, in order, computed from that entry. Saving writes exactly one entry per element in iteration order into an emptied list.',
 over=['inputs'],qt='every list length including empty, every element type, containers that already hold data',
 why='Tests load short lists into empty containers; skipped, repeated or stale entries need other lengths or histories.',
 files=[CON],mech=[('container loading and saving','CON: vector/set overloads')],tech='loop-invariant (induction) rule on abstract paths: cursor start, step and bound, one insertion per turn',note='Unbounded list length: the loop is summarised by head term, initial value and step.'),
dict(id='Y10',title='A bracketed text list loads as the same entries as a block list',
 statement='Where a list is expected, a text of the form [a, b, c] is taken as the list of the pieces between the commas, in order, one entry per piece and without the brackets and the blanks around each piece; [] is the empty list. Any other text is a configuration error, and a real list is taken as it is.',
 over=['inputs'],qt='every text and every number of pieces',why='Tests load one bracketed list of numbers, where blanks and lost pieces do not show.',
 files=[CON],mech=[('conversion','CON: to_sequence_node'),('splitting','CON: tokenizer, looks_like_a_list')],
 tech='path-sensitive abstract interpretation; per-turn rule over one symbolic turn of each loop, character-set evaluation of the bracket tests',
 note='The regular expression that recognises the form is trusted.'),
dict(id='Y11',title='Optional fields are set exactly when their key is present',
 statement='An optional field holds a value after a load exactly when it held one before or its key is present, and a present key always determines the value. A set optional is saved as its value and an unset one leaves no value in the output.',
 over=['inputs'],qt='every document and prior state of the optional',why='Two tests load one optional each.',
 files=[CON,SER],mech=[('optional loading','CON: std::optional overloads')],tech='path-sensitive abstract interpretation; presence/assignment correspondence',note='Plain and nested element types.'),
dict(id='Y12',title='Pointer fields own an object of the class the document names',
 statement='A smart-pointer field whose key is present ends up owning a newly created object loaded from that key; with the key absent it is left alone. For type-discriminated pointees the object is of exactly the class registered for the type the document gives, a missing or unregistered type is a configuration error, and shared and unique pointers behave alike.',
 over=['inputs','programs'],qt='every document, every registered or unregistered type value, both pointer kinds',why='Tests load two derived classes by their right names only.',
 files=[CON,TYD],mech=[('pointer loading','CON: shared_ptr/unique_ptr overloads'),('registry dispatch','TYD: TypeDiscriminated::deserialize_as_derived')],
 tech='path-sensitive abstract interpretation; provenance of the registry entry and of the new object',note='The registry is an unknown map; the rule holds for any contents.'),
dict(id='Y13',title='Enum names map one-to-one to enumerators in both directions',
 statement='A serializable enumeration loads each declared name as exactly that enumerator and saves each enumerator as exactly that name. An unknown name is a configuration error that leaves the field alone, and a value without a name is never looked up outside the name table.',
 over=['inputs'],qt='every string, every enumerator and every out-of-range integer value',why='Tests load one valid and one invalid name.',
 files=[ENU],mech=[('name tables','ENU: SERIALIZABLE_ENUM, generated from/to name functions')],tech='table equivalence on the expanded initialisers plus interval analysis of the index',note='Decided on the macro expansion the compiler sees.'),
dict(id='Y14',title='Type registrations are unique and dispatch to the registering class',
 statement='Every class registered under a discriminator is reachable through exactly that discriminator, registered before main runs, and a second registration of the same discriminator fails without replacing the first. Loading or saving through a base pointer always uses the class selected by the object\'s own type value.',
 over=['programs','histories'],qt='every set and order of registrations, every type value',why='Tests register three classes once; duplicates and cross-wiring are not provoked.',
 files=[TYD],mech=[('registration','TYD: Register<T,V>, TypeDiscriminated::registerT')],tech='effect analysis of the registration paths; static-initialiser rule',note='Registry contents are unknown (any history).'),
dict(id='Y15',title='Type dispatch calls exactly the first matching handler',
 statement='Dispatching on an object\'s dynamic type calls the first handler whose argument type the object is, exactly once and with that very object, and reports success; without a match it reports failure or throws, according to the variant. Whatever a handler throws reaches the caller unchanged.',
 over=['programs','fault_sequences'],qt='every object class, every list of handlers up to three, every exception a handler may throw',why='Tests call two handlers that do not throw.',
 files=[TYD],mech=[('dispatch','TYD: apply, try_apply, dispatch_known_type')],tech='path-sensitive abstract interpretation with exceptional edges',note='Handlers are opaque and may throw any exception type, std::bad_cast included.'),
dict(id='Y16',title='Every entry point loads the given document once into all its targets',
 statement='Each way of loading a document (from text or file, strict or lenient, returning an object or filling several) parses exactly the given text or named file once and loads every target object from it once, in the order given. A failure at any step reaches the caller and nothing later is loaded.',
 over=['inputs','fault_sequences'],qt='every entry point, one to three targets, failure at any step',why='Tests use one target per call and do not fail in the middle.',
 files=[SER],mech=[('entry points','SER: from, from_strict, from_file, from_file_strict')],tech='event-order rule over all abstract paths of the entry points',note='Target counts 1..3.'),
dict(id='Y17',title='No loaded object contains indeterminate values',
 statement='Objects created during a load (list and array entries, optional values, pointees, returned objects) never contain an indeterminate value: every part is either loaded from the document, given its declared default, or zero.',
 over=['inputs'],qt='every document, every subset of absent keys inside created objects',why='Reading uninitialised memory usually looks fine in a test; which keys are absent decides whether it happens.',
 files=[CON,SER,TYD],mech=[('object creation in loaders','CON: element construction; SER: returned objects')],tech='definite-initialisation analysis over all abstract paths',note='Fields of class type are followed to their constructors.'),
dict(id='Y20',title='Value validators accept exactly the valid values',
 statement='The set, map and file-path validators return their documented result exactly for values that are allowed, mapped, or name an existing file; every other value is a configuration error. The accepted value is returned unchanged, mapped by its own entry, or made absolute, respectively.',
 over=['inputs'],qt='every value and every set or map of allowed values',why='Tests call each validator at most once with a good value.',
 files=[CE],mech=[('validators','CE: validate_value, validate_map, validate_filepath')],tech='path-sensitive abstract interpretation; accept/reject correspondence',note='Membership and existence tests are opaque predicates.'),
]
for p in P:
    p['mech']=[(a,b.replace('SER:',SER+':').replace('CON:',CON+':').replace('BASE:',BASE+':').replace('TYD:',TYD+':').replace('STR:',STR+':').replace('ENU:',ENU+':').replace('CE:',CE+':')) for a,b in p['mech']]
