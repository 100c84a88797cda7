import json
P=[]
S='crates/sourisdb/src/'; D='crates/sourisd/src/'
def p(id,title,st,over,qt,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
p('P01','Native integers convert to Integer and back without changing',
 'Every value of each of the twelve native integer types, converted to an Integer, converts back to the same value. Converting an Integer to any native type succeeds exactly when its number fits in that type and then gives that number; otherwise it returns an error, and it never gives a different number.',
 ['inputs'],'All values of u8…u128, usize, i8…i128, isize, and all 12×12 pairs of source and target type.',
 'The tests sample i128/u128 with proptest and only convert back into the same wide type; the narrow targets at their limits and the sign changes are never reached.',
 [S+'types/integer.rs'],[('From<native> for Integer, TryFrom<Integer> for native (macros)',S+'types/integer.rs')],
 [('Integer','sign state, 16 little-endian two\'s complement bytes and the number of them which are used',S+'types/integer.rs')],
 ['Integer::from','<native>::try_from(Integer)'])
p('P02','Serialised integers read back equal, from exactly their own bytes',
 'For every Integer made from a native integer, serialising it and deserialising the bytes with the sign state that was returned gives an equal Integer which converts to the same native value, and consumes exactly the bytes written, whatever bytes follow. The numbers 0 to 239 take exactly one byte, and no number takes more than one byte more than the bytes needed to hold it. If bytes are cut short an error is returned.',
 ['inputs'],'All values of the native integer types, with arbitrary following bytes and every truncation.',
 'Proptest samples of i128/u128 rarely reach the one-byte boundary, each byte length or negative numbers with 0xFF/0x00 bytes inside, and never look at where the cursor stops.',
 [S+'types/integer.rs',S+'utilities/cursor.rs'],[('Integer::ser',S+'types/integer.rs'),('Integer::deser',S+'types/integer.rs')],(),['Integer::ser','Integer::deser','Cursor::pos'])
p('P03','Integers compare, hash and calculate by the number they hold',
 'Two Integers are equal exactly when they hold the same number, whatever native type each came from and whether or not it was serialised in between, and equal Integers hash equally. Adding, subtracting, multiplying or dividing two Integers gives exactly the mathematical result (truncated towards zero for division) whenever both operands and the result fit in u128, if both came from unsigned types, or in i128 otherwise. Whether an Integer is negative or positive agrees with its number.',
 ['inputs'],'All pairs of native values of any two of the twelve types.',
 'The existing tests compare integers of one type and try a few sums; equality across representations (signed/unsigned zero, deserialised copies) and hashes are not compared.',
 [S+'types/integer.rs'],[('PartialEq/Hash for Integer',S+'types/integer.rs'),('integer_trait_impl!',S+'types/integer.rs')],(),['==','Hash','+ - * /'])
p('P04','Whole floats convert to Integers exactly, and Integers to the nearest floats',
 'A finite f64 or f32 with no fractional part whose value is at least -2^127 and less than 2^128 converts to the Integer holding exactly that number. A number which is not finite, has a fractional part greater than the machine epsilon of its type, or is outside of that range is refused with an error that says which; an Integer converts to the f64 and to the f32 nearest to its number (of two equally near ones, the even one).',
 ['inputs'],'All 2^64 f64 and all 2^32 f32 bit patterns; Integers from all u128 and i128.',
 'Tests use a handful of small floats; the limits, subnormals, negative numbers just off an integer and values between 2^127 and 2^128 are not reached.',
 [S+'types/integer.rs'],[('TryFrom<f64>, TryFrom<f32> for Integer, From<Integer> for f64 and f32',S+'types/integer.rs')],(),['Integer::try_from'])
p('P05','A cursor only ever shows the elements it is over and stays in bounds',
 'A cursor over some data always has a position from 0 to the length of the data. Every read or peek returns exactly the requested elements starting from the position, and reads advance by exactly the number read; if too few elements remain, nothing is returned and the position does not change, and peeks never change it. Moves and seeks succeed exactly when the target is within the data, and then move there; setting the position past the end moves to the end.',
 ['inputs','histories'],'All data, all positions, all arguments (including those which overflow usize) and all sequences of operations.',
 'Only a doc-test and a few unit tests use it, always in bounds and with small offsets.',
 [S+'utilities/cursor.rs'],[('Cursor',S+'utilities/cursor.rs')],[('Cursor.pos','index of the next element, 0..=len',S+'utilities/cursor.rs')],['Cursor methods'])
p('P06','Bits hold exactly the sequence of bits put into them',
 'A Bits value behaves as the sequence of booleans pushed into it: pushing, popping, appending other Bits, clearing, indexing, iterating, collecting and converting to and from booleans or bytes all agree with that sequence, and two Bits are equal exactly when their sequences are. Serialising it and deserialising gives back the same sequence and consumes exactly the bytes written.',
 ['inputs','histories'],'All bit sequences of any length and all sequences of operations on them.',
 'Tests sample random bit strings for a few operations; what matters are lengths around multiples of eight and stale padding bits after pops or deserialisation.',
 [S+'utilities/bits.rs'],[('Bits::push, pop, get_proper_bytes, ser, deser',S+'utilities/bits.rs')],[('Bits.backing/valid_bits','bits packed from the least significant bit, padding is zero',S+'utilities/bits.rs')],['Bits methods'])
p('P07','Run-length encoding is lossless for every byte sequence',
 'Decoding the run-length encoding of any byte sequence, of any length and with runs of any length, gives back the same sequence and consumes exactly the encoded bytes.',
 ['inputs'],'All byte sequences, including runs longer than 255 and an even or odd number of runs.',
 'Tests sample random arrays of 1 to 256 bytes, which have almost no runs, and one 10,000-byte run.',
 [S+'types/binary/rle.rs'],[('rle',S+'types/binary/rle.rs'),('un_rle',S+'types/binary/rle.rs')],(),['rle','un_rle'])
p('P08','Huffman coding is lossless and refuses what it cannot code',
 'For every non-empty collection of symbols, the tree built from it encodes every sequence of those symbols (also when there is only one distinct symbol) into bits which decode to the same sequence. A tree serialised and deserialised decodes and encodes in the same way, and deserialising consumes exactly its bytes. Encoding a symbol which is not in the tree, and decoding bits which stop in the middle of a symbol, return errors.',
 ['inputs'],'All non-empty symbol multisets, all sequences over them, byte and character trees, all bit strings.',
 'Tests encode a few strings and random arrays; single-symbol trees, skewed frequencies, incomplete bit strings and characters such as U+0000 or U+10FFFF are not sampled.',
 [S+'utilities/huffman.rs',S+'utilities/bits.rs',S+'types/binary/huffman.rs'],[('add_node_to_table, decode, encode',S+'utilities/huffman.rs'),('Node::ser, Node::deser_at_depth',S+'utilities/huffman.rs')],[('Huffman.to_bits/root','code of each symbol; the tree the codes are paths in',S+'utilities/huffman.rs')],['Huffman::new, encode, decode, ser, deser'])
p('P09','Binary data is stored with the smallest encoding and restored exactly',
 'For every byte sequence, the serialised binary data names the compression which was used and deserialising it with that gives back the same bytes and consumes exactly the bytes written. The stored form is never longer than any of the four encodings (plain, run-length, LZ, huffman) of those bytes, and each of those decodes to the same bytes on its own.',
 ['inputs'],'All byte sequences, all four encodings, any bytes after the end.',
 'Tests round-trip random arrays of fixed lengths and five fixed cases.',
 [S+'types/binary.rs',S+'types/binary/lz.rs',S+'types/binary/huffman.rs',S+'types/binary/rle.rs'],[('BinaryData::ser/deser',S+'types/binary.rs'),('lz/un_lz',S+'types/binary/lz.rs'),('huffman/un_huffman',S+'types/binary/huffman.rs')],(),['BinaryData::ser','BinaryData::deser'])
p('P10','Scalar values survive serialisation bit for bit',
 'Every boolean, null, character, Integer, single or double float (bit for bit, including NaN and -0.0), imaginary number in either form, timestamp (including leap seconds and negative years) and IPv4 or IPv6 address, serialised as a Value and deserialised, gives back the same value of the same kind and consumes exactly the bytes written.',
 ['inputs'],'All values of each scalar kind, with any following bytes.',
 'Proptest samples characters, booleans, i128 and polar numbers only; timestamps, addresses, single floats and cartesian numbers of mixed signs have no test.',
 [S+'values.rs',S+'types/imaginary.rs',S+'types/integer.rs'],[('Value::ser',S+'values.rs'),('Value::deser / parse_primitive',S+'values.rs'),('Imaginary::ser/deser',S+'types/imaginary.rs')],(),['Value::ser','Value::deser'])
p('P11','Strings, arrays and maps of any shape survive serialisation',
 'Any Value built from strings, JSON, timezones, binary data and scalars with arrays and maps of any length nested up to 100 levels deep deserialises to an equal Value from exactly the bytes it serialised to, with or without a huffman tree for its text and whether or not the tree contains the characters used. Values serialised one after another are deserialised one after another. Text that was encoded with a huffman tree is refused when no tree is given.',
 ['inputs'],'All nested values up to 100 levels, list lengths from 0 through the 7-item limit of the short form and beyond, all strings, all trees.',
 'Tests round-trip single strings and binaries; nothing round-trips an array or map, an empty one, or one nested in another.',
 [S+'values.rs'],[('Value::ser',S+'values.rs'),('Value::deser (stack machine)',S+'values.rs'),('deser_array_or_map_len',S+'values.rs')],[('DeserialisationState stack','containers still being filled, innermost last',S+'values.rs')],['Value::ser','Value::deser'])
p('P12','A store read back from its bytes equals the store written',
 'Deserialising the bytes of any Store (values nested up to 100 levels) gives an equal Store, whichever compression and text encoding was chosen for it. The bytes start with SOURISDB, and bytes which start with anything else are refused.',
 ['inputs'],'All stores, including empty ones, ones with only empty text, one distinct character, or any character at all.',
 'One test round-trips a fixed store.',
 [S+'store.rs',S+'values.rs',S+'types/binary.rs',S+'utilities/huffman.rs'],[('Store::ser',S+'store.rs'),('Store::deser',S+'store.rs')],(),['Store::ser','Store::deser'])
p('P13','Reading malformed bytes returns an error instead of crashing',
 'Deserialising arbitrary bytes as a Store, Value, Integer, imaginary number, Bits, huffman tree or any of the binary encodings always ends with a value or an error: it never panics, overflows an integer or the stack, loops forever, or moves the cursor past the end of the bytes.',
 ['inputs'],'All byte sequences, in particular truncated, corrupted and adversarial ones (huge lengths, deep nesting, invalid discriminants).',
 'Tests only deserialise bytes which were just serialised.',
 [S+'values.rs',S+'store.rs',S+'types/integer.rs',S+'types/imaginary.rs',S+'types/binary.rs',S+'types/binary/rle.rs',S+'types/binary/lz.rs',S+'types/binary/huffman.rs',S+'utilities/bits.rs',S+'utilities/huffman.rs'],[('every deser function and un_* function',S),('MAX_TREE_DEPTH',S+'utilities/huffman.rs'),('MAX_DESERIALISATION_STACK',S+'values.rs')],(),['every public deser function'])
p('P14','Values converted to typed JSON and back are unchanged',
 'A Value made of nulls, booleans, strings, finite double floats, Integers that fit in i64 or u64, imaginary numbers of such parts, timestamps outside leap seconds, timezones, binary data, IP addresses, and arrays and maps of these (without a map key "souris_type") converted to JSON with souris types and back is equal to the original. An Integer beyond 64 bits or a float which is not finite makes the conversion to JSON return nothing. A Store of such values (again without a key "souris_type") converts to JSON and back to an equal Store.',
 ['inputs'],'All such values and stores.',
 'One test converts a fixed store without timestamps or timezones.',
 [S+'values.rs',S+'types/binary.rs',S+'types/integer.rs',S+'store.rs'],[('Value::convert_to_json',S+'values.rs'),('Value::convert_from_json',S+'values.rs'),('Store::to_json/from_json',S+'store.rs')],(),['Value::convert_to_json','Value::convert_from_json'])
p('P15','Value equality is an equivalence and equal values hash equally',
 'For all Values not containing NaN, equality is reflexive, symmetric and transitive, holds only between values of the same kind with equal contents, and ignores the order in which map entries were inserted. Values which are equal always have equal hashes.',
 ['inputs'],'All pairs and triples of values, including signed and unsigned integers, -0.0 and 0.0, and maps built in different orders.',
 'No test hashes a Value.',
 [S+'values.rs',S+'types/integer.rs',S+'types/imaginary.rs'],[('PartialEq/Hash for Value',S+'values.rs'),('Hash for Imaginary',S+'types/imaginary.rs')],(),['==','Hash'])
p('P16','Each daemon operation changes exactly what it was asked to change',
 'Creating (empty or with contents), clearing or removing a database, and adding, reading or removing a key changes the set of databases and their entries exactly as requested: nothing is lost or overwritten unless overwriting was asked for, contents given to an existing database without overwriting are merged into it (for a key in both, the value given last is kept), and no other database or key is touched. The outcome reported matches: CREATED exactly when a database came into being and OK otherwise, the exact kind of insertion for a key, and an error with its own status (400 for a missing key or invalid name, 410 for a missing database) when there is nothing to act on, in which case nothing changes.',
 ['histories','inputs'],'All operations with all arguments from all states of the daemon.',
 'sourisd has no tests.',
 [D+'v1_routes/state.rs',D+'v1_routes/db.rs',D+'v1_routes/value.rs',D+'error.rs'],[('SourisState methods',D+'v1_routes/state.rs'),('IntoResponse for SourisError',D+'error.rs')],[('SourisState.dbs','all databases by name',D+'v1_routes/state.rs')],['SourisState methods','HTTP handlers'])
p('P17','Reading a whole database never returns outdated contents',
 'The bytes returned for a database always deserialise to its contents at some moment between the request and the response, never to contents which an already completed operation replaced, and never to those of a removed database. This holds however operations interleave and although the serialised bytes are cached.',
 ['schedules','histories'],'All histories of operations and all interleavings of concurrent operations.',
 'sourisd has no tests, and the outdated bytes only appear after particular sequences or interleavings.',
 [D+'v1_routes/state.rs'],[('get_db and the invalidate calls in every mutating method',D+'v1_routes/state.rs')],[('SourisState.db_cache','serialised bytes of databases; each entry equals the current contents whenever the lock is free',D+'v1_routes/state.rs')],['SourisState::get_db'])
p('P18','Database names can never reach outside their own file',
 'No operation makes a database come into being whose name is "meta", is not ASCII, is too long for a file name, or contains a path separator or NUL: such a name is refused as invalid and nothing is changed. Saving and removing a database with any name that was accepted only touches that database\'s own file directly inside of the base location.',
 ['inputs','histories'],'All names in every operation that can create a database.',
 'sourisd has no tests.',
 [D+'v1_routes/state.rs'],[('is_valid_db_name',D+'v1_routes/state.rs'),('new_db, new_db_with_contents, add_key_value_pair',D+'v1_routes/state.rs')],(),['SourisState methods','file system'])
p('P19','What was saved is loaded again, and a failed save keeps the old files',
 'After a save completes, a daemon started from the same location has exactly the same databases with the same contents. If saving is interrupted at any point, or writing any file fails, each file in the location still holds either its complete old or its complete new contents, and a database saved before is not forgotten.',
 ['histories','crash_points','fault_sequences'],'All sets of databases, all points at which a save stops, and a failure of any of its file operations.',
 'sourisd has no tests, and none could stop the process between two file operations.',
 [D+'v1_routes/state.rs'],[('save, write_to_file',D+'v1_routes/state.rs'),('SourisState::new',D+'v1_routes/state.rs')],[('meta.sdb','store listing the names of all databases','base location')],['SourisState::save','SourisState::new','file system'])
p('P20','Client calls do the operation they name with the arguments given',
 'Every method of the sync and async clients sends the request of the daemon\'s API for the operation it names, with the database, key, flags and contents it was given, whatever characters they contain, and returns the daemon\'s answer; an answer that is an error is returned as the error with its status, except that the async client returns that there was none when a database to be read or removed is missing.',
 ['inputs','histories'],'All client methods with all arguments, and all answers to them.',
 'There are no client tests, and they would need a running daemon.',
 [S+'client.rs',S+'client/sync_client.rs',S+'client/async_client.rs'],[('SyncClient',S+'client/sync_client.rs'),('AsyncClient',S+'client/async_client.rs')],(),['HTTP requests'])
p('P21','Imaginary numbers keep their value when their form is converted',
 'Converting an imaginary number from cartesian to polar form gives a modulus of at least 0 and an argument between -π and π which denote the same point up to rounding, and converting one from polar to cartesian form gives the whole numbers which modulus·cos(argument) and modulus·sin(argument) come to. A polar number for which these are not both whole and in the range of an Integer is returned unchanged with an error, and a number which is in the wanted form already is returned unchanged.',
 ['inputs'],'All pairs of Integers, all pairs of finite floats as coordinates, and all pairs of floats as modulus and argument.',
 'Two doc-tests convert one number each.',
 [S+'types/imaginary.rs'],[('polar_from_cartesian, to_polar_form, to_cartesian_form',S+'types/imaginary.rs')],(),['Imaginary methods'])
p('P22','A JSON document that was stored comes back as the same document',
 'A JSON document in which no object has the key "souris_type" converts to a Value, and that back to JSON (with or without souris types) is the same document: the same texts, keys, structure and numbers, with integers staying integers and floats staying floats. The same holds when it is kept as a Store, also one which was written to bytes and read back, unless it is an object whose only key is "JSON" with something below it which is not an object.',
 ['inputs'],'All JSON documents without the key "souris_type", whatever their numbers, texts, keys and nesting (up to 100 levels where bytes are written).',
 'One test converts a fixed document, and nothing compares what comes back without souris types.',
 [S+'values.rs',S+'store.rs',S+'types/integer.rs'],[('Value::convert_from_json, Value::convert_to_json',S+'values.rs'),('Store::from_json, Store::to_json, Store::from_bytes, Store::to_bytes',S+'store.rs')],(),['Value::convert_from_json','Value::convert_to_json','Store::from_json','Store::to_json'])
open('/verif/properties.jsonl','w').write('\n'.join(json.dumps(x,ensure_ascii=False) for x in P)+'\n')
import jsonschema
sc=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,sc); assert x['statement'].count('. ')<=2,(x['id'],x['statement'].count('. '))
