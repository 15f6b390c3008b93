#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the text can be wrapped)."""
import json, os
P = []
H='include/GenericContainer/GenericContainer.hh'
G='src/GenericContainer.cc'
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe: a['observe_at'] = observe
    a['hook_needed'] = None
    P.append({'id': id, 'title': title, 'statement': ' '.join(statement.split()),
              'quantifier': {'over': over, 'text': ' '.join(qtext.split())},
              'why_tests_cant': ' '.join(why.split()), 'anchors': a})

p('C01', 'The payload is only ever accessed as the type the container reports',
  '''Whatever operation is applied to a container holding whatever stored type, the stored value is read and
  written only as the type currently stored: no operation ever interprets the storage of one type as another.
  On return, the reported type and the stored payload agree for the container, for every container passed to the
  operation and for every container nested in them.''',
  ['inputs', 'histories'],
  'every operation of the core library, applied to a container in each of the 21 stored types, with distinct and with aliased arguments',
  '''Tests touch a few of the (operation x stored type) pairs and a mismatch usually reads plausible bytes instead
  of failing; 21 types times several hundred operations is never sampled.''',
  [H, G, 'src/GenericContainerPromote.cc', 'src/GenericContainerCollapse.cc', 'src/GenericContainerSerialize.cc', 'src/GenericContainerTables.cc'],
  [('type tag tested or set before each union access', 'all methods of GenericContainer'),
   ('allocate_*/clear', G), ('promote_to_*', 'src/GenericContainerPromote.cc')],
  [('m_data_type', 'reported type', H), ('m_data', 'untagged union holding the payload', H)])

p('C02', 'Every payload is owned once: no leak, double release or use after release',
  '''Each heap payload a container acquires is released exactly once, by the time the container is cleared,
  re-typed, overwritten or destroyed: it is never leaked, never released twice and never used after its release.
  This also holds when the argument of a copying operation is the container itself or an element stored inside
  it. (Memory lost while an out-of-memory error propagates is not covered.)''',
  ['inputs', 'histories'],
  'every operation x every initial stored type x argument aliasing (distinct, same container, element of the container)',
  '''Example programs do not run under a leak checker, and aliasing calls (assigning a container one of its own
  elements) never occur in them.''',
  [H, G, 'src/GenericContainerPromote.cc', 'src/GenericContainerCollapse.cc'],
  [('clear() is the only releaser', G), ('allocate_* only allocates when the type differs', G), ('from_gc', G)],
  [('m_data', 'owning pointer for every type above the scalars', H)])

p('C03', 'A container stays valid when an operation throws, allocation failure included',
  '''If an operation throws - wrong type, bad index, missing key, truncated buffer, failed memory allocation - every
  container involved is afterwards still consistent: its reported type matches a live, singly-owned payload, so
  that it can be read, reassigned and destroyed.''',
  ['fault_sequences', 'inputs'],
  'every throwing point (explicit error, checked element access, every allocation) on every path of every operation x stored type',
  'Tests neither inject allocation failures nor inspect containers after an exception.',
  [H, G, 'src/GenericContainerPromote.cc', 'src/GenericContainerSerialize.cc'],
  [('payload allocated before the tag is set', G), ('GC_ASSERT checks precede mutation', G)],
  [('m_data_type', 'reported type', H)])

p('C04', 'Typed reads return the stored value for accepted types and throw otherwise',
  '''For each typed read of a whole value and each stored type, the outcome is fixed: the read returns the stored value,
  or its documented conversion, when the stored type is one the accessor accepts, and throws for every other
  stored type. It never returns a default, stale or differently-typed value in place of an error.''',
  ['inputs'],
  'every whole-value accessor and copy-out x each of the 21 stored types, for all stored values',
  '21 types times some 60 accessors; tests exercise the happy path of a few.',
  [H, G],
  [('ck(), GC_ASSERT, switch default -> error', G), ('get_value specialisations', G)],
  [('m_data_type', 'reported type', H)])

p('C05', 'Copying a container yields an equal, independent replacement',
  '''Copy-constructing, assigning, loading from or copying to a container leaves the destination with the source's
  type, size and element-for-element contents whatever it held before, shares no storage with the source, and
  leaves the source unchanged. This holds for all 21 types, for empty vectors and maps, and for values set from
  plain vectors and maps.''',
  ['inputs', 'histories'],
  'all source types x all destination types, empty and non-empty contents, aliased source',
  'Tests copy into fresh containers only, and never into one already holding the same type.',
  [H, G], [('from_gc / operator= / load / to_gc', G), ('set_*(value) families', G)],
  [('m_data', 'payload', H)])

p('C06', 'Promotion widens without losing values, or refuses and changes nothing',
  '''A promotion either leaves the container holding the requested wider type with every element equal, after
  numeric conversion, to the element at the same position before - a scalar becoming the single first element, an empty
  container a single zero - or throws and leaves type and value as they were. A container already of the requested type is left unchanged.''',
  ['inputs'],
  'each promotion x each of the 21 stored types, any size, any values',
  '''Only a few promotion pairs are exercised, and a promotion that reads the wrong member often produces plausible
  numbers.''',
  ['src/GenericContainerPromote.cc', G], [('promote_to_*', 'src/GenericContainerPromote.cc')],
  [('m_data_type', 'type before/after', H)])

p('C07', 'Serialised size, written bytes and read-back agree for every type',
  '''For each stored type, the byte count announced beforehand, the fields written and the fields consumed when
  reading back are the same sequence of the same widths in the same order, for any number of elements and any nesting whose
  serialised size is less than 2^31 bytes;
  reading back restores the type, size and every element from the position where it was written. Multi-byte
  values are encoded and decoded with the same byte order.''',
  ['inputs'],
  'all 21 stored types, all sizes, all nestings',
  'The test serialises one sample container; types absent from it (matrices of complex, pointers) never round-trip.',
  ['src/GenericContainerSerialize.cc', 'src/GenericContainerSupport.cc', H],
  [('mem_size / serialize / de_serialize switch per type', 'src/GenericContainerSerialize.cc'),
   ('byte codecs', 'src/GenericContainerSupport.cc')])

p('C08', 'Serialisation never writes or reads outside the given buffer',
  '''Writing never stores a byte beyond the capacity given by the caller and reading never consumes a byte beyond
  the length given by the caller, whatever the buffer contains: a buffer that is too short, or announces a negative or
  too large element count, is refused with an error instead.''',
  ['inputs'],
  'all containers and capacities when writing; all byte strings and lengths when reading',
  'Tests only use buffers of exactly the right size, produced by the library itself.',
  ['src/GenericContainerSerialize.cc'],
  [('remaining-bytes check before each field', 'src/GenericContainerSerialize.cc')])

p('C09', 'Element access by index never leaves the stored vector or matrix',
  '''Reading or writing an element by position on any stored type either addresses an element inside the stored
  sequence or matrix (both row and column in range) or throws; operations documented to grow the container make it large
  enough first. No index, however large, reaches memory outside the stored elements.''',
  ['inputs'],
  'all index values, all sizes, each indexed accessor x each stored type',
  'Tests use valid indices; an unchecked read one past the end returns a plausible value.',
  [H, G, 'src/GenericContainerInterface_C.cc', 'src/GenericContainerTables.cc'],
  [('GC_ASSERT / .at() / resize before element access', G)])

p('C10', 'Read-only operations leave the container unchanged',
  '''Queries, conversions, comparisons, exports and printing through a read-only container change neither
  its type, nor its value, nor anything nested in it: in particular looking up a missing key or element does not
  create it.''',
  ['inputs', 'histories'],
  'every operation declared read-only, except the two documented as removing keys/appending booleans, on every stored type',
  'Tests do not compare the container before and after a query.',
  [H, G, 'src_json_interface/to_json.cc', 'src_yaml_interface/to_yaml.cc', 'src_toml_interface/to_toml.cc'],
  [('const qualification (which does not reach through the payload pointers)', H)])

p('C11', 'Concurrent readers of one container never interfere',
  '''Any number of threads may simultaneously query, export or compare the same container or different containers:
  no read-only operation and no operation on an unrelated container writes storage shared between threads.''',
  ['schedules'],
  'all interleavings of read-only operations on a shared container and of any operations on distinct containers',
  'There is no multi-threaded test at all.',
  [G, 'src/GenericContainerSupport.cc', H],
  [('no non-const static storage touched by the operations', G)])

p('C12', 'No C++ exception crosses the C interface; errors become non-zero codes',
  '''Every function of the C interface returns normally for every argument and every state of the active container:
  any error raised inside is caught and reported by a non-zero code (or a null / zero result for functions
  that return values), and zero is returned only when the requested operation was performed.''',
  ['inputs', 'histories'],
  'every exported C function x every type of the active container, including no active container',
  'The C test is one straight-line success script.',
  ['src/GenericContainerInterface_C.cc'],
  [('try/catch in every exported function', 'src/GenericContainerInterface_C.cc')])

p('C13', 'C handles: operations act on the selected container only while it exists',
  '''After a named container is deleted no later call touches it: calls made without selecting another one report an
  error. Creating, selecting and deleting names in any order neither leaks nor frees a container twice.''',
  ['histories'],
  'all sequences of create / select / delete / use over any names',
  'The C test deletes only at the end.',
  ['src/GenericContainerInterface_C.cc'],
  [('registry of named containers and the active pointer', 'src/GenericContainerInterface_C.cc')])

p('C15', 'The Lua bridge keeps the Lua stack balanced',
  '''Converting between containers and Lua values pushes exactly the results promised and removes every
  temporary, on success and on error, so the Lua stack depth after a call is the one before plus the promised
  results, for every stored type. However deep the values are nested, room is asked for before it is used, and the
  walk over a table always goes on from a key of that table that it left untouched.''',
  ['inputs', 'histories'],
  'all stored types, all Lua values, any number of successive calls',
  'A leak of one slot per call only shows after the stack limit is reached.',
  ['src_lua_interface/GenericContainerInterface_lua.cc'],
  [('lua_push*/lua_pop pairing', 'src_lua_interface/GenericContainerInterface_lua.cc')])

p('C16', 'Keys and names are compared in full, whatever memory follows them',
  '''A key or text passed to the library as a view is used with exactly its own length: no operation reads past its
  end or truncates it, so a lookup, an insertion or a message never depends on the bytes that follow the key.''',
  ['inputs'],
  'all keys passed as views of a larger text, with or without a terminating zero',
  'Tests always pass literals, which happen to be zero terminated.',
  [H, G], [('conversion of views to owned keys', G)])

p('C17', 'Numeric conversions on typed reads are value-preserving or refused',
  '''A read that converts the stored number to a narrower integer type either returns the same
  numeric value or throws; it never wraps, truncates or reinterprets a value that does not fit (fractional or imaginary
  parts smaller than the least normal double count as zero).''',
  ['inputs'],
  'all integer reads x all numeric stored types, for all values including the extremes',
  'Tests never store values outside the range of int.',
  [G], [('range/sign/integrality test before each narrowing cast', G)])

p('C18', 'Text import reports failure instead of returning partial data silently',
  '''Importing JSON, YAML or TOML text returns success only if the whole input was accepted and converted;
  a syntax or conversion failure at any depth is reported to the caller.''',
  ['inputs'],
  'all input texts, at any nesting depth, each import front end',
  'Tests only import well-formed files.',
  ['src_json_interface/from_json.cc', 'src_yaml_interface/from_yaml.cc', 'src_toml_interface/from_toml.cc'],
  [('return codes of the recursive converters and catch blocks', 'src_*_interface/from_*.cc')])

p('C19', 'An exported text holds every stored element, once and in its place',
  '''The exporters to JSON, YAML and TOML and the text dump handle each of the 21 stored types, empty or not, at any depth:
  the text written has the shape of its format and its leaves are the stored values - every element of a vector, a
  matrix or a map, with its key, written exactly once, at its position, with its own value; nothing is skipped,
  repeated, truncated, exchanged or written as another type. In JSON and YAML a matrix is a list of columns; in TOML it
  is a table with its numbers of rows and columns and its data under the name of its type. A text written between
  quotes is quoted so that it reads back as the same text. Only TOML, which cannot represent it, refuses an empty
  container. (YAML keys and the texts of the dump are written without quotes.)''',
  ['inputs'],
  'all exporters x 21 stored types, empty and non-empty, any nesting',
  'Exported samples contain a handful of types.',
  ['src_json_interface/to_json.cc', 'src_yaml_interface/to_yaml.cc', 'src_toml_interface/to_toml.cc', G],
  [('switch over the stored type in each exporter', 'src_*_interface/to_*.cc')])

p('C20', 'Comparison looks at every element of both containers',
  '''Comparing two containers reports no difference only if types, sizes, keys and every element agree, reports a
  difference otherwise, and does so for each of the 21 types, comparing like with like and terminating for all
  sizes.''',
  ['inputs'],
  'all pairs of containers over the 21 types, any size and nesting',
  'Tests compare at most one pair of equal containers.',
  [G], [('compare_content / compare_vector', G)])

p('C21', 'Every operation terminates: each loop makes progress',
  '''No operation loops for ever on any finite input: every loop advances towards its exit on each pass, on every path
  through its body.''',
  ['inputs'],
  'every loop of the core, the import/export bridges and the C interface, on every path',
  'A loop that fails to advance only for some inputs never runs in the tests.',
  [G, 'src/GenericContainerSupport.cc', 'src/GenericContainerSerialize.cc', 'src_json_interface/jsonLexer.cc'],
  [('loop increments', 'all sources')])

p('C22', 'The Ruby binding declares the C functions as they are',
  '''Every C function declared by the Ruby binding exists in the C interface with the same number, order and kind of
  arguments and the same result kind, and every type code the binding dispatches on has the meaning the
  library gives it.''',
  ['programs'],
  'every attached function and every dispatched type code',
  'No Ruby test runs; a wrong declaration corrupts the call silently.',
  ['src_ruby_interface/GenericContainer_ffi.rb', 'include/GenericContainer/GenericContainer.hh', 'src/GenericContainerInterface_C.cc'],
  [('attach_function table', 'src_ruby_interface')])

p('C23', 'Reported type names, codes and sizes are right for every type',
  '''The reported type name, the simple/vector/matrix classification, the number of elements, rows and columns are
  the ones of the stored value for each of the 21 types, and distinct types have distinct names.''',
  ['inputs'],
  'all introspection calls x 21 types, any size',
  'Tests print type names but check none.',
  [H, G], [('per-type switches and name tables', G)])

p('C24', 'Printing leaves the format of the output stream as it found it',
  '''Printing or exporting a container to a caller-supplied stream restores the number base, flags, precision, width
  and fill it changed, so later output by the caller (and later elements of the same container) is formatted as
  before.''',
  ['inputs', 'histories'],
  'every stream output operation x 21 types',
  'A sticky hexadecimal flag shows only when an integer follows a pointer.',
  [G, 'src_json_interface/to_json.cc', 'src_yaml_interface/to_yaml.cc', 'src/GenericContainerTables.cc'],
  [('manipulators paired with a restore', 'all stream writers')])

p('C25', 'Table output copes with empty and ragged data',
  '''Printing a table from any headers and columns - empty, unequal in number or of unequal length - either prints or
  throws, and never touches an element that is not there.''',
  ['inputs'],
  'all header and column sets, including empty and ragged ones',
  'Tests print well-shaped tables only.',
  ['src/GenericContainerTables.cc', G], [('size checks before indexing', 'src/GenericContainerTables.cc')])

p('C26', 'Access by key reaches exactly the entry stored under that key',
  '''Looking up, testing, extracting, inserting or erasing by key acts on the entry with exactly that key. A read
  returns the value of that entry, or its documented conversion; when the key is missing, the container is not a
  map, or the entry has a type the read does not accept, it throws or answers no, and a destination passed in keeps
  its value. operator[] on a missing key creates one empty entry (turning a container that is not a map into one),
  and on an existing key changes nothing by itself. Erasing removes that entry if it is there
  and changes no other entry. Given several alternative keys, the first one that is there counts; given the keys of a
  path through nested maps, the entry at its end.''',
  ['inputs', 'histories'], 'all keys, all maps (empty ones and prefix-related keys included), every type of container and of entry',
  'Tests look up a few keys that exist in small maps.',
  ['src/GenericContainer.cc', H], [('operator[], operator(), exists, erase', 'src/GenericContainer.cc'),
   ('get_if_exists, get_map_*', 'include/GenericContainer/GenericContainer.hh')])

p('C27', 'The C interface stores and returns exactly the values of the selected position',
  '''After GC_select, a setter or GC_push_* that succeeds leaves exactly the value passed at the selected position (an
  array element by element, with the length given, whatever the position held before); a flag is true exactly when the
  int passed is not zero. GC_get_* return the value stored at the position and zero or null when it holds a type the
  reader does not accept; GC_get_*_at_pos and _at_coor return exactly the element asked for, and zero or null when the
  index is not there. Type, sizes and dimensions reported are those of the selected position. GC_push_vector_position and
  GC_push_map_position select exactly the element asked for of the position they start from, GC_pop_head goes back one
  step, GC_reset_head to the root. A negative count or position, or a position of the wrong type, is refused
  and the position kept; a valid request is not refused.''',
  ['inputs', 'histories'], 'all arguments, every type of container at the selected position, every depth',
  'The C example stores a few values in one fixed structure.',
  ['src/GenericContainerInterface_C.cc'], [('GC_set_*, GC_push_*, GC_get_*', 'src/GenericContainerInterface_C.cc')])

p('C30', 'Numeric text output reads back as the same number',
  '''Numbers written by the text exporters are read back by the corresponding importer as the same number.''',
  ['inputs'], 'all representable integers and reals', 'Tests sample a few numbers.',
  ['src_json_interface/to_json.cc', 'src_json_interface/from_json.cc'],
  [('stream formatting of numbers', 'src_json_interface/to_json.cc')])
p('C31', 'Text export followed by import restores the container',
  '''Exporting a container to JSON, YAML or TOML and importing the text restores the same structure, keys and
  values.''',
  ['inputs'], 'all containers expressible in the text format', 'Tests round-trip no generated containers.',
  ['src_json_interface', 'src_yaml_interface', 'src_toml_interface'],
  [('exporter/importer pairs', 'src_*_interface')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P), 'properties')
