#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the long lines stay reviewable)."""
import json, os
S='crates/sourisdb/src/'; D='crates/sourisd/src/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],observe_at=observe or [],hook_needed=hook)))

p('C01','A store survives the trip through its file format',
 'Serialising any store and deserialising the bytes gives back an equal store: every key, every value with its kind, and every float bit for bit. This holds whatever the keys, values and nesting (down to the supported depth of 128 containers inside one another), and whatever order the maps happen to be walked in. Empty stores, empty containers and text made of a single repeated character are no exception.',
 ['inputs','histories'],'all stores: every combination of value kinds, container lengths across the inline/explicit length boundary, nestings and key texts, and every iteration order of the maps, within the enumerated bounds',
 'Store has no round-trip test at all; map iteration order is seeded randomly per process, so a run sees one order per map and an order-dependent fault passes or fails by luck.',
 [S+'store.rs',S+'values.rs',S+'utilities/huffman.rs',S+'types/binary.rs'],
 [('Store::ser / Store::deser',S+'store.rs'),('Value::ser / Value::deser (map, array)',S+'values.rs')],
 [('magic byte','whether a text dictionary follows and how the body is compressed',S+'store.rs')],['bytes of Store::ser','result of Store::deser'])
p('C02','Every value round trips and marks its own end',
 'Any value of any of the sixteen kinds, serialised with or without a text dictionary (including one that does not know all of its characters), deserialises with the same dictionary to an equal value of the same kind with floats bit for bit. Deserialising consumes exactly the bytes serialising produced, so values written back to back are read back one by one. Arrays keep their order.',
 ['inputs'],'all values of all kinds at the boundaries of every encoding, nested, with no dictionary and with dictionaries that cover all, some or none of the text',
 'The existing tests sample six kinds without a dictionary and never a map, array, JSON value, timestamp, timezone or address; dictionaries are never combined with values.',
 [S+'values.rs',S+'types/imaginary.rs',S+'utilities/bits.rs',S+'utilities/huffman.rs'],
 [('Value::ser',S+'values.rs'),('Value::deser state machine',S+'values.rs')],
 [('deserialisation stack','pending containers, keys and wrappers',S+'values.rs')],['bytes of Value::ser','cursor position after Value::deser'])
p('C03','Integers keep their exact value through every representation',
 'An integer made from any native integer or decimal text keeps its numeric value through bytes, display, text parsing and serde; it converts to a native type exactly when the value fits that type and otherwise reports an error, and it exports to JSON exactly when it fits 64 bits. Two integers are equal, and hash equally, exactly when their numeric values are equal, whichever types they were made from. Parsing accepts exactly the decimal texts the native 128-bit parsers accept.',
 ['inputs'],'all values at and around every power of two and every byte-length boundary of all twelve native types, all 8- and 16-bit values, all pairs of boundary values, and all short texts',
 'Sampling 128-bit values uniformly practically never lands on a length or sign boundary of a narrower type, and cross-type conversions and equality are not tested.',
 [S+'types/integer.rs'],[('From/TryFrom native types',S+'types/integer.rs'),('Integer::ser / deser',S+'types/integer.rs'),('PartialEq / Hash',S+'types/integer.rs')],
 [('content, bytes used, sign','little-endian value and how much of it is significant',S+'types/integer.rs')],['TryFrom results','Display','ser bytes'])
p('C04','Decoders answer any bytes with a value or an error',
 'Deserialising arbitrary bytes as a store, value, integer, bit list, dictionary, compressed binary, imaginary number or JSON document always returns either a result or an error: it never panics, overflows the stack, loops or aborts, and memory use stays bounded by the input and the decoded size rather than by a length claimed in the input. Whatever is returned can itself be serialised, cloned, compared and dropped without any such failure.',
 ['inputs'],'all byte strings up to the length bound, all truncations and all one-byte (and selected two-byte) changes of valid encodings, and hostile length and nesting patterns',
 'A handful of well-formed inputs says nothing about hostile ones, and a daemon decodes bytes that arrive from the network.',
 [S+'values.rs',S+'store.rs',S+'utilities/huffman.rs',S+'utilities/bits.rs',S+'types/binary/lz.rs',S+'types/binary/rle.rs',S+'types/binary/huffman.rs',S+'types/integer.rs',S+'types/imaginary.rs'],
 [('length checks before reads','all deser functions'),('nesting limits',S+'values.rs')],None,['return value or process exit of each decoder'])
p('C05','Binary compression is lossless and picks the smallest form',
 'Each compression method (none, run-length, Lempel-Ziv, Huffman) restores exactly the bytes it was given and reads exactly the bytes it wrote. The automatic choice restores them too, and its output is never longer than the shortest of the four.',
 ['inputs'],'all byte strings over small alphabets up to the length bound and runs around every counter and length boundary',
 'Tests try fixed lengths of random bytes, which never contain runs of 255/256, single-symbol inputs of boundary lengths, or inputs on which the methods tie.',
 [S+'types/binary.rs',S+'types/binary/rle.rs',S+'types/binary/lz.rs',S+'types/binary/huffman.rs'],
 [('BinaryData::ser / deser',S+'types/binary.rs'),('rle, lz, huffman and inverses',S+'types/binary/')],None,['output bytes and cursor position'])
p('C06','Huffman codes are lossless, prefix-free and optimal',
 'For any non-empty data, a code built from it encodes any sequence of its symbols and decodes the bits to exactly that sequence, also after the code itself was written out and read back. No symbol encodes to a prefix of another, and the total length is the least any prefix code can reach for those frequencies. Encoding a symbol the code does not contain, or decoding bits that end inside a symbol, is an error.',
 ['inputs','histories'],'all symbol sequences over small alphabets, all small frequency tables, every tie-breaking order of the frequency map, every character as a leaf',
 'Ties are broken by randomised map order, single-symbol alphabets are never tested, and optimality is not tested at all.',
 [S+'utilities/huffman.rs',S+'utilities/bits.rs'],[('tree construction with a min heap',S+'utilities/huffman.rs'),('encode/decode',S+'utilities/huffman.rs'),('tree serialisation',S+'utilities/huffman.rs')],None,['encode/decode results','ser bytes'])
p('C07','Bit lists behave as lists of booleans',
 'After any sequence of operations (push, push many, pop, clear, clone, collect, serialise and deserialise) a bit list has exactly the length and contents of the plain list of booleans under the same operations, seen through indexing, iteration, display, conversion and emptiness. Two bit lists are equal exactly when their contents are, and equal ones hash alike. Indexing past the end is refused.',
 ['histories','inputs'],'all operation sequences up to the depth bound from all start states, all contents up to the length bound, and lengths around every power of two that matters for the length arithmetic',
 'Two fixed sequences and 32-bit samples do not reach the byte boundaries in combination with pop, equality and deserialised backing bytes, nor large lengths.',
 [S+'utilities/bits.rs'],[('push/pop/index arithmetic',S+'utilities/bits.rs'),('masked last byte',S+'utilities/bits.rs')],[('backing, valid_bits','packed bits and how many are meant',S+'utilities/bits.rs')],['all public methods'])
p('C08','A cursor is an in-bounds position in a slice',
 'After any sequence of reads, peeks, moves, position changes, iteration and standard seeks, the cursor is at the position and returns the elements that the same steps give on a plain slice and index. A step that would leave the slice is refused and changes nothing, except for setting the position, which stops at the end. Peeks never move.',
 ['histories'],'all operation sequences up to the depth bound on slices of every length up to the bound, with offsets at and beyond both ends and at the extremes of their types',
 'One fixed sequence is tested; seeking is untested.',
 [S+'utilities/cursor.rs'],[('bounds-checked moves and reads',S+'utilities/cursor.rs')],[('pos','current index',S+'utilities/cursor.rs')],['all public methods'])
p('C09','JSON import and export lose nothing they promise to keep',
 'Any JSON document without reserved type tags, turned into a store or value and exported again, is the same document. Exporting with type tags and importing again gives back the same value for every kind that JSON or the tags can carry (integers that fit 64 bits, finite double floats, booleans, null, strings, imaginary numbers, timestamps, time zones, binary, addresses, and containers of these). A number JSON cannot represent makes the export report failure rather than produce something else, and a malformed tagged object is an error.',
 ['inputs'],'all JSON documents and all values built from boundary leaves up to the depth bound, with and without type tags',
 'Existing tests convert only a few samples and none of the tagged kinds; the special form used for documents that are not objects is untested.',
 [S+'values.rs',S+'store.rs',S+'types/integer.rs',S+'types/binary.rs'],[('convert_to_json / convert_from_json',S+'values.rs'),('to_json / from_json',S+'store.rs')],None,['exported documents','imported values'])
p('C10','Equality and hashing of values obey their contracts',
 'Value equality is reflexive, symmetric and transitive, distinguishes kinds and different contents, and treats stores with the same entries as equal whatever their insertion history. Equal values always hash equally, so values work as keys in hashed collections.',
 ['inputs','histories'],'all pairs (and triples) of values from the boundary corpus, and every insertion and iteration order of equal maps',
 'No test hashes a value; faults need two equal values with different internal layout or map order.',
 [S+'values.rs',S+'types/integer.rs',S+'types/imaginary.rs',S+'types/binary.rs'],[('PartialEq / Hash for Value',S+'values.rs')],None,['==, Hash, membership in a hash set'])
p('C11','Typed data survives being stored through the serde helpers',
 'A Rust value written with the typed store helper and read back with its counterpart as the same type is equal to the original, for every shape serde can express as JSON: structs, maps, options, every enum form, sequences, tuples, scalars and text (that is, whatever serde_json itself carries to a JSON value and back unchanged; a field or key named souris_type is reserved). What has no JSON form, or is nested too deeply to be read back, is reported as an error when it is written, never silently changed.',
 ['inputs'],'all values of a family of types covering each serde data-model shape at boundary leaves, nested, including types that do not serialise to an object',
 'The helpers have no tests for non-object shapes or documents that look like the internal wrapping.',
 [S+'store.rs',S+'values.rs'],[('Store::to_bytes / from_bytes',S+'store.rs')],None,['result of reading back'])
p('C12','Encodings never exceed their documented sizes',
 'Small integers (up to 239) take one byte and larger ones one byte plus their significant bytes; containers of up to six entries, booleans, null, small enumerated states and compression choices take a single header byte; floats and addresses take their fixed width plus one; text never takes more than its raw bytes plus header when no dictionary is used. These sizes are the same on every run and for every way of building the same value.',
 ['inputs','histories'],'all boundary values of every kind, every way of constructing the same integer, and every container length across the boundary',
 'No test looks at sizes, although small size is the stated purpose of the format.',
 [S+'types/integer.rs',S+'values.rs',S+'types/imaginary.rs'],[('packed header nibble',S+'values.rs'),('Integer::ser length scheme',S+'types/integer.rs')],None,['length of serialised bytes'])
p('C13','Numeric conversions and arithmetic are exact or refused',
 'Converting a float to an integer succeeds exactly when it is finite, within floating tolerance of a whole number and in range, and gives that number; other floats are refused with the matching reason. Integer arithmetic gives the exact mathematical result whenever operands and result fit the arithmetic type in use and never a silently wrong one. Polar and cartesian forms of the same complex number agree in value, quadrant and argument range, also on the axes and at zero.',
 ['inputs'],'all boundary floats of both widths, all small fractions, all pairs of boundary integers under four operations, and the integer grid of complex numbers',
 'Two doc examples exercise one quadrant each; single-width floats, negative fractions, infinities and mixed signedness are untested.',
 [S+'types/integer.rs',S+'types/imaginary.rs'],[('TryFrom<f32/f64>',S+'types/integer.rs'),('Add/Sub/Mul/Div',S+'types/integer.rs'),('polar_from_cartesian / to_cartesian_form',S+'types/imaginary.rs')],None,['conversion results'])
p('C14','A value gives its content to exactly the type it holds',
 'A value reports its own kind and no other, whichever way it was made (as a variant, by the constructor of the kind, from a native integer, or as a store), and gives that content unchanged through every accessor of its kind: by reference, by mutable reference, by taking it out and by conversion. Every accessor of another kind declines, and a failed conversion names the kind it found and the one it expected. A native integer comes out of a value exactly when the number the value holds fits it. Edits in place change exactly what they name: after any sequence of inserting, removing and changing entries, elements and contents of nested maps and arrays, a store is what plain collections are after the same edits, and still is after being written and read back.',
 ['inputs','histories'],'every boundary leaf of all sixteen kinds and every small nesting through the accessors of every kind; boundary numbers into and out of all twelve native types; all edit sequences up to the depth bound',
 'Tests call a few accessors on values of their own kind; nothing looks at the other kinds, at in-place edits or at what is declined.',
 [S+'values.rs',S+'store.rs'],[('as_ty!, from_integer! (accessors and conversions)',S+'values.rs'),('Store::new, TryFrom<Value> for Store, Deref',S+'store.rs')],None,['accessor results'])
p('C15','What is stored keeps its format',
 'Stores, values, integers, bit lists, dictionaries and compressed bytes are written in one fixed format: everything the library writes stands, in that format, for exactly what was written, and everything written in that format by an earlier version, in any of the forms the format allows (any compression, any dictionary or none, text coded or plain, numbers marked signed or unsigned, any order of keys), is read as exactly what it stands for. A change that writes and reads its own files correctly but cannot read the existing ones, or reads them as something else, breaks this.',
 ['inputs'],'every boundary number, leaf, char and length and every small nesting, written by either side and read by the other, in every form the format allows',
 'Tests only read what the same build has written, so that a change made to writer and reader alike goes unnoticed.',
 [S+'values.rs',S+'store.rs',S+'types/integer.rs',S+'types/imaginary.rs',S+'types/binary.rs',S+'utilities/huffman.rs',S+'utilities/bits.rs'],[('Value::ser, Value::deser',S+'values.rs'),('Store::ser, Store::deser',S+'store.rs'),('Integer::ser, Integer::deser',S+'types/integer.rs')],None,['bytes written','values read'])
p('C16','Values and stores pass web extractors and responses unchanged',
 'A value or store returned from an axum handler is answered as 200 with exactly its encoding, marked as bytes. A handler that takes a value or store gets exactly the one that was sent, however the bytes arrive (in parts of any size, with pauses). A body that is not an encoding, that fails before its end even after all of the encoding has arrived, or that is longer than the limit of the server never reaches the handler: it is refused with the documented kind of rejection, status (400; 413 beyond the limit, to the byte) and text.',
 ['inputs','histories'],'all boundary leaves, small trees and short or spoiled bodies, cut into parts in every way, failing at every point, with every limit around their length',
 'Nothing tests the extractors, and how a body arrives is up to the network.',
 [S+'axum.rs',S+'values.rs',S+'store.rs'],[('FromRequest for Value and Store',S+'axum.rs'),('IntoResponse for Value and Store',S+'axum.rs'),('SourisRejection',S+'axum.rs')],None,['extracted values','responses'])
p('C17','What is shown of a value is all of it',
 'Showing a value or a store (Display, as the command line tool does, and Debug) never fails and leaves nothing out: two values of a kind which differ never look the same (integers are told apart by their number, every float that is not a number is shown as that); numbers, addresses, time zones and booleans read back from their text to the same value; an array shows all its entries, each as it is shown by itself, in order; a map or a store shows one row for every key, with the entry as it is shown by itself next to its key; bytes are all listed.',
 ['inputs'],'all boundary leaves pairwise, every char, all short strings over difficult chars, all byte strings up to 2, all small trees, sizes to 300, depth to 255, pairs of difficult keys; text not shown at a terminal (no wrapping)',
 'Nothing tests the text, and it is what users of the command line tool decide by.',
 [S+'values.rs',S+'store.rs',S+'types/integer.rs',S+'types/imaginary.rs',S+'types/binary.rs',S+'lib.rs'],[('Display for Value and Store',S+'values.rs'),('Display for Integer, Imaginary and BinaryData',S+'types/'),('display_bytes_as_hex_array',S+'lib.rs')],None,['text'])
p('D01','Each request does exactly what its answer says',
 'For any sequence of requests, the daemon answers every request as a plain map of databases to maps would (created, found, overwritten, missing, refused), and later reads show exactly the effects of the requests that were answered as successful. Overwrite and create flags are honoured, one database never affects another, and a refused or failed request changes nothing.',
 ['histories','inputs'],'all request sequences up to the depth bound over all endpoints, all flag combinations, existing and missing databases and keys, valid and invalid names and bodies',
 'The daemon has no tests.',
 [D+'v1_routes/state.rs',D+'v1_routes/db.rs',D+'v1_routes/value.rs',D+'error.rs',S+'client.rs'],[('request handlers',D+'v1_routes/'),('SourisState methods',D+'v1_routes/state.rs')],
 [('dbs','all databases in memory',D+'v1_routes/state.rs'),('db_cache','serialised copies of databases',D+'v1_routes/state.rs')],['status codes and bodies'],'module re-export of the daemon internals')
p('D02','Concurrent requests are linearizable, cached reads included',
 'However concurrent requests interleave and whatever the read cache keeps or evicts, the answers are those of some one-at-a-time order that respects which request finished before another began. In particular, once a change has been acknowledged no later read of a database, its values or the list of databases shows the state before it, and requests never block each other forever.',
 ['schedules','histories'],'all interleavings of small sets of concurrent requests at every await and lock point, with every cache eviction choice within the deviation bound',
 'Needs a specific interleaving between a cache update and a locked change; there are no concurrency tests.',
 [D+'v1_routes/state.rs'],[('mutex around dbs',D+'v1_routes/state.rs'),('cache invalidation',D+'v1_routes/state.rs')],
 [('dbs','all databases in memory',D+'v1_routes/state.rs'),('db_cache','serialised copies of databases',D+'v1_routes/state.rs')],['answers of concurrent requests'],'module re-export of the daemon internals')
p('D03','Saving and restarting preserves every database',
 'After a save that reported success, a fresh start from the same directory has exactly the databases and contents that were in memory, for any history of requests and earlier saves and restarts. Databases whose removal was acknowledged do not come back, and repeated saves and restarts change nothing.',
 ['histories'],'all request/save/restart sequences up to the depth bound, with every boundary kind of content and database name',
 'Persistence has no tests.',
 [D+'v1_routes/state.rs',S+'store.rs'],[('SourisState::save / new',D+'v1_routes/state.rs')],[('meta database','list of database names on disk',D+'v1_routes/state.rs')],['state after restart'],'module re-export of the daemon internals')
p('D04','A crash at any moment never damages previously saved data',
 'If the process or machine stops at any point, including in the middle of a save or a removal, the next start succeeds and every database is either as it was at the last completed save or as it was being saved, never truncated, mixed, lost or emptied. A database whose removal was acknowledged does not reappear as an empty one.',
 ['crash_points','histories'],'every prefix of the file-system operations of every save and removal in all short histories, with torn and unsynced writes',
 'Needs a stop between two specific system calls; nothing tests it.',
 [D+'v1_routes/state.rs'],[('writing database files and the name list',D+'v1_routes/state.rs'),('loading at start',D+'v1_routes/state.rs')],None,['state after restart from the crashed directory'],'module re-export of the daemon internals')
p('D05','A failed write loses nothing that was saved before',
 'When any single file operation during a save or a removal fails (disk full, permission, input/output error), the daemon keeps running, data in memory stays intact, and what an earlier save put on disk still loads at the next start. A later save without faults makes everything durable again.',
 ['fault_sequences','histories'],'every file operation of every save or removal in all short histories failing with each error kind, one (quick) or two (thorough) faults per history',
 'Needs injected faults; nothing tests it.',
 [D+'v1_routes/state.rs'],[('error handling in save and remove',D+'v1_routes/state.rs')],None,['state after restart','status codes'],'module re-export of the daemon internals')
p('D06','Database names never reach files outside the data directory',
 'Whatever name a client gives a database through any request, the daemon only ever creates, writes, renames or removes files directly inside its data directory, and never the file in which it keeps its own list of databases. Names that cannot be stored that way are refused by every request that could create a database, and accepted names always stay distinct on disk.',
 ['inputs','histories'],'all names over an alphabet of dangerous characters up to the length bound, plus long, reserved and non-ASCII names, through every endpoint that takes a name',
 'No test uses an unusual name.',
 [D+'v1_routes/state.rs',D+'v1_routes/db.rs',D+'v1_routes/value.rs'],[('name validation',D+'v1_routes/state.rs'),('path construction',D+'v1_routes/state.rs')],None,['paths of all file operations','status codes'],'module re-export of the daemon internals')
p('D07','A graceful shutdown saves every acknowledged change',
 'When the daemon is asked to stop, every change it acknowledged before it exits, including changes acknowledged after the stop request arrived, is present after the next start. The daemon does exit once its open requests are answered.',
 ['schedules','histories'],'every placement of requests relative to the stop signal, the final save and its file operations',
 'Needs a request to land between the final save and the end of the server; nothing tests the binary.',
 [D+'main.rs',D+'v1_routes/state.rs'],[('graceful shutdown and final save',D+'main.rs')],None,['acknowledged answers vs state after restart'])
p('D08','The client libraries and the daemon agree on every operation',
 'For any sequence of operations, the blocking and the asynchronous client report what the daemon actually did, with the documented result or error for each situation, and values and stores sent through them come back equal. Names and keys with any characters work the same as plain ones.',
 ['histories','inputs'],'all operation sequences up to the depth bound through each client against the real daemon, with boundary names, keys and values',
 'Clients have no tests; each method fixes a method, path, query and status mapping that must match the daemon.',
 [S+'client.rs',S+'client/sync_client.rs',S+'client/async_client.rs',D+'v1_routes/db.rs',D+'v1_routes/value.rs'],[('SyncClient methods',S+'client/sync_client.rs'),('AsyncClient methods',S+'client/async_client.rs')],None,['results of client calls'])
p('D09','Saving while requests run is consistent and does not interfere',
 'A save running at the same time as requests stores each database as it was at one moment between the start and the end of the save, never a mixture, and includes every change acknowledged before it began. Concurrent saves, removals and re-creations leave a directory that loads to a state the requests allow - in particular, a database whose removal was acknowledged stays gone unless a request created it again -, and neither side blocks the other forever.',
 ['schedules','crash_points'],'all interleavings of a save with small sets of requests (and of two saves) at every lock, await and file operation',
 'Needs a specific interleaving of the periodic saver with requests.',
 [D+'v1_routes/state.rs',D+'main.rs'],[('lock held while saving',D+'v1_routes/state.rs'),('file removal',D+'v1_routes/state.rs')],None,['state after restart'],'module re-export of the daemon internals')
p('D10','The command line tool does exactly what was picked and confirmed',
 'For every command of the command line tool and every way of answering its questions, the change that was asked for is made to the database and key that were picked, with exactly the value that was put in, and to nothing else. Nothing changes before the last question is answered, when the confirmation is refused, or when a command fails, and a failure is reported with a non-zero exit. What is shown or exported is what the database contains, and an imported JSON document without type tags is exported as the same document.',
 ['inputs','histories'],'every command on several sets of databases with every way of answering its questions, ending at every question; every kind of value put in; all sequences of commands up to the depth bound',
 'The tool has no tests; it is only ever used by hand.',
 ['crates/mouse/src/main.rs','crates/mouse/src/value_utils.rs',S+'client/sync_client.rs'],[('commands','crates/mouse/src/main.rs'),('values put in by hand','crates/mouse/src/value_utils.rs')],None,['contents of all databases afterwards','exit status','what is printed','files written'])
p('D11','A data directory keeps its layout',
 'A data directory laid out by an earlier version (the list of databases in meta.sdb under existing_dbs, each database in a file of its name with .sdb, at the place given by BASE_LOCATION or the default one of the user) is what the daemon starts with, all databases and contents included; and what a save leaves in the directory is laid out like that, so that reading the files by themselves gives exactly the databases in memory.',
 ['inputs','histories'],'every directory of up to three databases over odd names and contents in several written forms, at each place it can be; the files after all request, save and restart histories up to the depth bound',
 'Nothing tests loading; a change made to saving and loading alike goes unnoticed by any restart.',
 [D+'v1_routes/state.rs',S+'store.rs'],[('SourisState::new',D+'v1_routes/state.rs'),('SourisState::save',D+'v1_routes/state.rs')],[('meta database','list of database names on disk',D+'v1_routes/state.rs')],['state after a start','files after a save'],'module re-export of the daemon internals')
p('D12','A daemon that cannot start or finds damage leaves files alone',
 'A daemon that cannot start, because another one has its port or because the list of databases cannot be read or is damaged, does not serve and changes no file in the data directory: neither the data of the daemon already running nor what could still be repaired gets overwritten. A damaged or unreadable database file keeps no other database from being served and is not changed or removed until a new database of its name gets saved. Files in the directory that are not of a database it serves stay as they are.',
 ['histories','schedules','faults','inputs'],'every start beside what any short history has left, in every schedule; every cut, byte and run of zeros in the list or a database file; every failing file operation while starting',
 'Nothing tests the daemon; this needs a second process, damaged files or failing disks at particular moments.',
 [D+'main.rs',D+'v1_routes/state.rs'],[('main: load, spawn saver, bind, serve',D+'main.rs'),('SourisState::new',D+'v1_routes/state.rs')],None,['files in the data directory','whether it serves'],'module re-export of the daemon internals')
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
