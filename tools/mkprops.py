"""Writes /verif/properties.jsonl.  (The properties are data; this only spares the JSON quoting.)"""
import json
import os

P = []


def prop(id, title, statement, over, text, tests, files, mechanism, state=()):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': tests,
              'anchors': dict({'files': ['amazon/ion/' + f for f in files], 'mechanism': [{'name': m, 'where': ', '.join('amazon/ion/' + f for f in files)} for m in mechanism]},
                              **({'state': [{'name': n, 'meaning': m, 'where': 'amazon/ion/' + w} for n, m, w in state]} if state else {}))})


prop('C01', 'Binary Ion decodes to exactly the values it encodes',
     'For every well-formed Ion 1.0 binary stream, reading it reports exactly the values the Ion specification assigns to its bytes: '
     'types, scalar values (ints of any size, both float widths, decimals with sign, exponent and negative zero, timestamps with precision, '
     'offset and fraction, UTF-8 strings, lobs, nulls of every type), field names, annotations, nesting, order; padding is invisible.',
     ['inputs'], 'every well-formed binary document',
     'Inputs are unbounded: type descriptors, length encodings, padding, nesting and wrappers combine freely; the tests hold a fixed table of encodings.',
     ['reader_binary.py', 'core.py', 'reader.py'],
     ['_TypeID dispatch table built by _bind_*_handlers', '_parse_var_int/_parse_decimal/_parse_timestamp and friends',
      '_HandlerContext limits carried through the container handlers'],
     [('queue', 'bytes not consumed yet and absolute position', 'reader_binary.py'),
      ('ctx.limit', 'where the current container or wrapper ends', 'reader_binary.py')])
prop('C02', 'Malformed binary Ion is never accepted as data',
     'A binary stream that breaks the Ion 1.0 binary encoding (bad version marker, reserved type codes, wrong lengths, values or annotations that overrun '
     'or fall short of their container or wrapper, nested wrappers, negative zero ints, bad UTF-8, impossible timestamps) is reported as an error '
     'or is left incomplete (waiting for data that never comes); it never ends cleanly having been read in full, and nothing that breaks the encoding, nor '
     'anything after it, is reported as a value or container (a scalar counts as reported when its value can be taken from the event).',
     ['inputs', 'fault_sequences'], 'every byte string, in particular every corruption of a well-formed document',
     'The set of malformed inputs is unbounded; the tests try a list of bad documents.',
     ['reader_binary.py'], ['_raise at _TypeID handlers', 'limit checks in _HandlerContext.remaining and the container handler'])
prop('C03', 'Text Ion decodes to exactly the values it denotes',
     'For every well-formed Ion 1.0 text document, in str or UTF-8 bytes form, reading it reports exactly the values the grammar assigns: numbers in '
     'every notation, correctly rounded floats, timestamps, quoted and long strings with all escapes and newline rules, symbols, clobs, blobs, '
     'nulls, operators in s-expressions, annotations, field names, comments and whitespace anywhere they are allowed.',
     ['inputs'], 'every well-formed text document',
     'The grammar is infinite and token boundaries interact (comments, operators, quotes, end of data); the tests enumerate short tokens pairwise.',
     ['reader_text.py', 'reader.py', 'core.py'],
     ['character-class dispatch tables', '_container_handler token loop', '_long_string_handler, _numeric_handler_factory, _timestamp_handler'],
     [('child_context', 'pending token, annotations and field name of the value being read', 'reader_text.py')])
prop('C04', 'Malformed text Ion is never accepted as data',
     'A text document outside the Ion 1.0 grammar (bad numbers, dates, escapes, quotes, lobs, missing commas or colons, keywords as field names or '
     'annotations, unclosed containers or tokens at the end of the data) is reported as an error; it never ends cleanly having been read in full, and nothing malformed, nor anything after it, is reported as a value.',
     ['inputs', 'fault_sequences'], 'every character string, in particular every mutation and truncation of a well-formed document',
     'The set of malformed inputs is unbounded; the tests try a list of bad documents.',
     ['reader_text.py'], ['_illegal_character fallback of the dispatch tables', 'end-of-data handling in _read_data_handler and _container_handler'])
prop('C05', 'How input is split into chunks never changes what is read',
     'Whatever non-empty pieces a document is fed to a reader in, in binary, str or UTF-8 bytes form, the same events are reported, none before its data has arrived and '
     'each as soon as its data settles it; INCOMPLETE is reported exactly when a value has been begun or is pending, STREAM_END exactly between top-level values.',
     ['schedules', 'inputs'], 'every document and every way of cutting it into chunks, including inside multi-byte characters, escapes and lengths',
     'The number of ways to cut grows exponentially; the tests cut a few documents at fixed places.',
     ['reader.py', 'reader_binary.py', 'reader_text.py'],
     ['BufferQueue', '_read_data_handler', 'reader_trampoline', '_next_code_point_handler'],
     [('BufferQueue segments/offset', 'received and unread input', 'reader.py')])
prop('C06', 'SKIP is equivalent to reading a container to its end and discarding',
     'Requesting SKIP at any point inside or at the start of a container, at any depth, any number of times, whatever the chunking, yields the '
     'end event of the innermost open container, and everything after that is reported exactly as if the container had been read in full.',
     ['schedules', 'inputs'], 'every document, every position of SKIP requests, every chunking',
     'Skip positions combine with nesting and chunk boundaries; the tests skip at a few places.',
     ['reader_binary.py', 'reader_text.py', 'reader.py', 'reader_managed.py'],
     ['_container_handler SKIP branch (binary)', '_skip_trampoline (text)'])
prop('C07', 'Readers enforce their request protocol',
     'A reader accepts exactly the documented requests: first NEXT; after INCOMPLETE or STREAM_END only non-empty data of its kind (for text, also NEXT after INCOMPLETE, '
     'meaning no more data is coming); after any other event NEXT, or SKIP when inside a container; any other request raises and reports no event.',
     ['histories', 'schedules'], 'every sequence of requests',
     'Request sequences are unbounded; the tests try selected misuses.',
     ['reader.py', 'reader_text.py', 'reader_binary.py'], ['reader_trampoline'])
prop('C08', 'Symbol IDs resolve against the symbol table in force where they occur',
     'Every symbol value, field name and annotation given by ID denotes the text that the local symbol table in force at that point of the stream assigns to it '
     '(system symbols, imports in order with the size they declare, then local symbols; appended tables extend, other tables replace, version markers reset), however late it is looked at; '
     'unknown slots keep their import name and position; an ID outside the table raises.',
     ['inputs', 'histories', 'configurations'], 'every stream of version markers, local symbol tables (imports, appends, malformed entries) and values, with every catalog',
     'Tables, imports and catalogs combine freely along a stream; the tests use short scripted tables.',
     ['reader_managed.py', 'symbols.py'],
     ['_ManagedContext.resolve', '_local_symbol_table_handler', '_import_desc_handler', '_managed_thunk_event'],
     [('ctx.symbol_table', 'table in force', 'reader_managed.py')])
prop('C09', 'System values are consumed and user values are delivered exactly once',
     'A managed reader never shows version markers or local symbol tables at the top level to its user, and shows every other value exactly once and in order, '
     'including structs that merely resemble symbol tables (nested, null, or annotated with it in a later position), whatever the chunking and use of SKIP.',
     ['inputs', 'schedules'], 'every stream that mixes system and user values',
     'System and user values interleave arbitrarily and differ only by position and annotation order; the tests use short scripts.',
     ['reader_managed.py'], ['managed_reader'])
prop('C10', 'Symbol tables assign dense, stable, first-wins IDs',
     'Along any history of creating tables (with imports), interning and looking up, IDs are dense from 1, existing assignments never change, text always maps to its '
     'lowest ID, interning known text adds nothing, lookups by ID and text agree, and ID 0 is the symbol of unknown text; invalid constructions and operations raise and change nothing.',
     ['histories', 'configurations'], 'every sequence of table operations',
     'Histories are unbounded; the tests check fixed tables.',
     ['symbols.py'], ['SymbolTable'], [('symbols/mapping', 'tokens in ID order and first definition of each text', 'symbols.py')])
prop('C11', 'Catalogs resolve imports exactly, by substitution, or not at all',
     'After any history of registrations, resolving (name, version, max_id) gives the registered table when version and size match, otherwise a substitute of exactly max_id '
     'symbols taken from that version or else the highest registered version, padded with unknown text; a placeholder of unknown symbols when the name is unknown; and raises when an exact match is required but absent.',
     ['histories', 'configurations'], 'every history of registrations and resolutions',
     'Versions, sizes and order of registration combine; the tests use one or two tables.',
     ['symbols.py'], ['SymbolTableCatalog', 'substitute_symbol_table', 'placeholder_symbol_table'])
prop('C12', 'Binary writer output decodes to the events written',
     'For every sequence of events a binary writer accepts, the bytes it produces are well-formed Ion 1.0 binary that decodes, by the Ion specification and by this library\'s reader, '
     'to exactly the values written: types, values, annotations, field names, nesting and order, at any size and depth.',
     ['histories', 'inputs'], 'every accepted event sequence',
     'Event sequences and value magnitudes are unbounded and lengths change encoding at thresholds; the tests sample them.',
     ['writer_binary.py', 'writer_binary_raw.py', 'writer_binary_raw_fields.py', 'writer_buffer.py', 'writer.py'],
     ['_serialize_* functions', 'BufferTree containers', 'writer_binary_raw_fields'],
     [('BufferTree', 'bytes of open containers with lengths accumulated bottom-up', 'writer_buffer.py')])
prop('C13', 'Binary writer symbol tables are self-contained at every flush',
     'Whatever mix of symbols, imports, flushes and version markers is written, every flush emits a complete segment (version marker, the local symbol table it needs if any, its values) in which '
     'every symbol ID resolves to the text written, with shared imports declared with the version and size used; no output is produced between flushes and none is lost or repeated.',
     ['histories', 'configurations'], 'every sequence of writes and flushes with every choice of imports',
     'Flush points and symbol reuse across flushes combine; the tests flush once or twice.',
     ['writer_binary.py', 'symbols.py'], ['_managed_binary_writer_coroutine', '_symbol_table_coroutine'])
prop('C14', 'Text writer output decodes to the events written, compact or indented',
     'For every sequence of events the text writer accepts, with or without indentation, the text it produces is well-formed Ion that decodes, by the Ion specification and by this library\'s reader, '
     'to exactly the values written; indentation changes whitespace only.',
     ['histories', 'inputs', 'configurations'], 'every accepted event sequence, compact and with any whitespace indent',
     'Characters, symbol spellings and separators interact; the tests sample them.',
     ['writer_text.py', 'writer.py'], ['_serialize_scalar and friends', '_symbol_needs_quoting', '_container_delimiter'])
prop('C15', 'Writers enforce well-formed event sequences and signal honestly',
     'A writer accepts exactly the event sequences that describe Ion (balanced containers, a field name for every struct member, values of their type, no version marker or stream end inside a value; '
     'nothing but None while output is pending, never None otherwise); others raise, and after raising it produces nothing more. HAS_PENDING is signalled exactly while output remains to be taken; COMPLETE only when '
     'everything written so far has been output (after a stream end, and in text after every top-level value or version marker); NEEDS_INPUT otherwise.',
     ['histories'], 'every sequence of writer events',
     'Event sequences are unbounded; the tests try selected misuses.',
     ['writer.py', 'writer_binary_raw.py', 'writer_text.py', 'writer_binary.py'], ['writer_trampoline', '_raw_writer_coroutine', 'partial_transition/serialize tables'])
prop('C16', 'Values survive a binary dump and load unchanged',
     'For every value built from the documented Python types, dumping it to binary and loading it back gives a value equal in the Ion data model: same types, annotations, precision, sign and field multiset.',
     ['inputs', 'configurations'], 'every value tree of documented types and every import set',
     'Values are unbounded; the tests round-trip a table of values.',
     ['simpleion.py', 'simple_types.py', 'writer_binary.py', 'reader_binary.py', 'reader_managed.py'], ['dump/_dump', 'load/_load'])
prop('C17', 'Values survive a text dump and load unchanged',
     'For every value built from the documented Python types, dumping it to text (compact or indented) and loading it back gives a value equal in the Ion data model: same types, annotations, precision, sign and field multiset.',
     ['inputs', 'configurations'], 'every value tree of documented types, every indent',
     'Values are unbounded; the tests round-trip a table of values.',
     ['simpleion.py', 'simple_types.py', 'writer_text.py', 'reader_text.py', 'reader_managed.py'], ['dump/_dump', 'load/_load'])
prop('C18', 'Python values map to the documented Ion types and options',
     'dump gives every value of a documented Python type (and subclasses) the documented Ion type and honours sequence_as_stream, tuple_as_sexp, omit_version_marker, indent and imports; '
     'load gives the documented Python type for every Ion type, honours single_value (exactly one value or an error), accepts str, bytes and files in text or binary; any other object raises.',
     ['inputs', 'configurations'], 'every documented type, subclass, option combination and stream of any number of values',
     'Types, options and nesting combine; the tests cover each alone.',
     ['simpleion.py', 'simple_types.py'], ['_FROM_TYPE', '_ion_type', '_FROM_ION_TYPE', 'load sniffing'])
prop('C19', 'ion_equals decides equality in the Ion data model',
     'ion_equals is exactly data-model equality on value trees: an equivalence relation that separates types, typed nulls, annotations and their order, decimal precision and negative zero, '
     'float signs, timestamp precision, fraction and offset (unless comparing instants), symbols from strings; ignores struct field order but not repetition.',
     ['inputs'], 'every pair of value trees',
     'Pairs are unbounded and laws such as transitivity quantify over triples; the tests list pairs.',
     ['equivalence.py', 'core.py'], ['ion_equals', 'obj_has_ion_type_and_annotation, _ion_equals_* helpers'])
prop('C20', 'Timestamps keep the precision, fraction and offset they were given',
     'However a timestamp is constructed (keyword and positional, with precision, fractional precision or fractional seconds), or obtained by copying, pickling or replacing, its precision, fraction digits, offset and fields are mutually consistent '
     'and those given; inconsistent combinations raise.',
     ['inputs'], 'every combination of constructor arguments',
     'Argument combinations are unbounded; the tests list some.',
     ['core.py', 'simple_types.py'], ['Timestamp.__new__', 'timestamp()', 'OffsetTZInfo'])
prop('C21', 'Structs keep every value of a repeated field, in order',
     'Along any history of additions, assignments, deletions and lookups on a struct, each name maps to the values added to it in order, plain lookup gives the last one, the length counts all values, '
     'and iteration yields every (name, value) pair exactly once.',
     ['histories'], 'every history of operations', 'Histories are unbounded; the tests run a few.',
     ['core.py', 'simple_types.py'], ['Multimap'])
prop('C22', 'The input buffer is a faithful queue of what was fed to it',
     'Along any history of extending, reading, skipping, unreading and marking the end, in bytes or unicode, the buffer returns exactly the input in order, once, whatever the segment boundaries; its length and position always '
     'agree with what was fed and consumed, and impossible requests raise and change nothing.',
     ['histories', 'schedules'], 'every history of buffer operations over every segmentation',
     'Operation histories and segmentations combine; the tests run a few.',
     ['reader.py'], ['BufferQueue'], [('segments, offset, size, position', 'queue contents', 'reader.py')])
prop('C23', 'Ion values keep type, annotations and value through copies and events',
     'Making an Ion value from a Python value or from an event, converting it back to an event, or copying, deep-copying or pickling it preserves its Ion type, annotations and value, and never changes the original.',
     ['inputs', 'histories'], 'every Ion value of every type and every chain of conversions',
     'Types, nulls, annotations and chains combine; the tests cover some.',
     ['simple_types.py', 'core.py'], ['_IonNature', 'from_event, from_value, to_event, _copy'])
prop('C24', 'Deferred values do not depend on when or how often they are read',
     'The value, field name and annotations of an event are the same whether they are looked at at once, later, after the reader moved on to other data and symbol tables, or repeatedly.',
     ['schedules', 'inputs'], 'every document, every delay between an event and its inspection',
     'Delays and intervening data combine; the tests look at once.',
     ['core.py', 'reader_binary.py', 'reader_text.py', 'reader_managed.py'], ['MemoizingThunk', 'IonThunkEvent', '_managed_thunk_event'])
prop('C25', 'Readers and writers do not influence one another',
     'However the requests to several readers and writers in one process are interleaved, including ones that failed, each behaves as if it were alone, and shared catalogs, imported tables and argument values are left unchanged.',
     ['schedules', 'histories'], 'every interleaving of requests to independent readers and writers',
     'Interleavings are unbounded; the tests drive one instance at a time.',
     ['reader_managed.py', 'writer_binary.py', 'symbols.py', 'reader_text.py', 'writer_text.py', 'util.py'],
     ['per-instance contexts and coroutines', 'module-level tables that must stay constant'])
prop('C26', 'What a reader reports can be written again unchanged',
     'The events of a managed reader, given one after the other to a binary or text writer as they come (scalars, containers, nulls, annotations, field names and stream ends; deferred values unread), '
     'are accepted, and the output denotes exactly the values of the document, whatever its encoding, symbol tables, chunking and SKIP requests; symbols of unknown text aside.',
     ['inputs', 'schedules', 'configurations'], 'every well-formed document, every chunking, both output formats, every choice of imports and indentation',
     'The product of documents, symbol tables and output formats is unbounded, and reader and writer meet in deferred values and symbol tokens; the tests drive them with events made by hand.',
     ['reader_managed.py', 'core.py', 'writer_binary.py', 'writer_text.py', 'symbols.py'],
     ['IonThunkEvent values', 'SymbolToken as annotation, field name and value', '_managed_binary_writer_coroutine', 'text writer serialization tables'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
