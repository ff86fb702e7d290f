import json
P=[]
def p(id,title,stmt,over,qt,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,anchors=dict(files=files,mechanism=mech))
    if state: d['anchors']['state']=state
    if obs: d['anchors']['observe_at']=obs
    d['anchors']['hook_needed']=None
    P.append(d)
def m(name,where): return dict(name=name,where=where)
p('C01','Scalars read back exactly as encoded',
 'Encoding a string, number, bool or null as a stand-alone value and reading it back with the matching accessor yields exactly the value that was encoded, for every value; reading it with any other typed accessor reports a type mismatch naming the expected and the actual type. Encoding into a caller-supplied buffer appends: the bytes already in the buffer are unchanged and the returned value covers exactly the appended bytes.',
 ['inputs'],'every string (length up to the format maximum), every number, both bools, null; every prior buffer content',
 'tests/scalar.rs encodes a handful of short scalars; nothing covers length-prefix boundaries, every accessor/type pair, or non-empty buffers',
 ['src/builder/scalar.rs','src/vec.rs','src/util.rs','src/yason/mod.rs'],
 [m('Scalar::*_with_vec','src/builder/scalar.rs'),m('VecExt::push_string/push_number','src/vec.rs'),m('Yason::string/number/bool/is_null, check_type','src/yason/mod.rs')])
p('C02','String lengths are encoded canonically and decoded back',
 'A string length up to 268435455 is encoded in little-endian groups of 7 bits using the fewest bytes (1 to 4), every byte but the last having its high bit set, and decoding at that position returns the same length and the number of bytes consumed whatever follows it. Truncated input is reported as out of bounds, never read past the end.',
 ['inputs'],'every length 0..2^28-1, every position, every following bytes',
 'four sampled lengths in util.rs; 2^28 lengths times arbitrary surrounding bytes cannot be sampled',
 ['src/util.rs','src/vec.rs'],[m('encode_varint','src/util.rs'),m('decode_varint','src/util.rs'),m('push_data_length','src/vec.rs')])
p('C03','Arrays read back exactly the elements pushed, in order',
 'An array built with n pushes and finished successfully has length n and its i-th element is the i-th pushed value (string, number, bool, null, or nested object or array as finished by its own builder), through indexed access and through iteration alike. This holds when built in an owned buffer or after existing content of a caller-supplied buffer, which stays unchanged before the array.',
 ['inputs','histories'],'every sequence of pushes of every kind of value with nesting up to the limit, every prior buffer content',
 'tests build a few fixed small arrays; offsets, frames and nesting interact for every sequence of pushes',
 ['src/builder/array.rs','src/yason/array.rs','src/vec.rs'],
 [m('InnerArrayBuilder::push_value/finish','src/builder/array.rs'),m('Array::read_value, ArrayIter','src/yason/array.rs')],
 [dict(name='value entries',meaning='fixed-size slot per element holding its type and inline value or offset',where='src/builder/array.rs')])
p('C04','Objects return every pushed key and value, and nothing else',
 'An object built from n pushes with distinct keys and finished successfully has n entries; looking up each pushed key returns the value pushed under it, looking up any other key reports that it is absent, whatever the order of the pushes when the builder is not told that the keys are sorted.',
 ['inputs','histories'],'every set of distinct keys, in every push order, with values of every kind including nested ones, sorted flag only when the keys are pushed in key order',
 'tests use a few short ASCII keys; insertion shifts and binary search interact for every permutation and key set',
 ['src/builder/object.rs','src/yason/object.rs','src/util.rs'],
 [m('push_key_value_by (insertion of key offsets)','src/builder/object.rs'),m('binary_search','src/builder/object.rs'),m('Object::find_key','src/yason/object.rs'),m('cmp_key','src/util.rs')])
p('C05','Object entries are ordered by key length, then key bytes',
 'Iterating over the entries, the keys or the values of an object visits every entry exactly once, in increasing order of key length and, among keys of the same length, of key bytes; the three iterations agree position by position. The order does not depend on the order in which the entries were pushed.',
 ['inputs','histories'],'every set of distinct keys and every push order',
 'tests iterate over one or two objects; the order must hold for every permutation of every key set',
 ['src/builder/object.rs','src/yason/object.rs','src/util.rs'],
 [m('cmp_key','src/util.rs'),m('InnerObjectBuilder::binary_search','src/builder/object.rs'),m('ObjectIter/KeyIter/ValueIter','src/yason/object.rs')])
p('C06','Encoded bytes follow the documented binary format',
 'Every value produced by the builders is laid out as the crate documentation specifies: type byte, total size of what follows the size field, element count, little-endian offsets relative to the element count, key length and key, inlined bools and nulls in arrays, length-prefixed strings. The bytes depend only on the values pushed and their order, never on what the buffer memory held before; unused value bytes are zero.',
 ['inputs','histories'],'every sequence of pushes, every buffer history',
 'tests compare a few byte strings built in fresh buffers; stale memory and large offsets do not show there',
 ['src/lib.rs','src/binary.rs','src/vec.rs','src/builder/array.rs','src/builder/object.rs'],
 [m('skip_size/skip_key_offset/skip_value_entry','src/vec.rs'),m('write_total_size/write_offset','src/vec.rs'),m('constants of the format','src/binary.rs')])
p('C07','Incomplete or overfull builders never yield a value',
 'Finishing a builder succeeds only if exactly the declared number of elements was pushed and every embedded builder created from it was finished; otherwise it reports the count mismatch or the unfinished embedded builder. Pushing more elements than declared, or pushing while an embedded builder is unfinished, is reported as an error, and a push rejected for its arguments leaves the builder as if it had not been made.',
 ['histories'],'every sequence of pushes, embedded builders finished or dropped, and finish, including rejected pushes',
 'tests try two misuse sequences; the guarantee is about every history',
 ['src/builder/array.rs','src/builder/object.rs','src/builder/mod.rs'],
 [m('finish checks','src/builder/array.rs'),m('push_value/push_key_value_by checks','src/builder/object.rs'),m('Depth','src/builder/mod.rs')],
 [dict(name='value_count/element_count, current_depth/total_nested_depth',meaning='what the builder knows about its history',where='src/builder/array.rs')])
p('C08','Size and nesting limits are reported, never silently truncated',
 'Objects and arrays nest up to 100 levels and one more level is refused; keys longer than 65535 bytes, strings longer than 268435455 bytes, more than 65535 elements and objects or arrays longer than 2147483647 bytes are refused with an error. Everything within the limits is accepted (given memory) and nothing is truncated.',
 ['inputs','histories'],'every key, string, element count, nesting depth and document size around and beyond each limit',
 'tests cover only the nesting limit',
 ['src/builder/mod.rs','src/builder/array.rs','src/builder/object.rs','src/vec.rs','src/json.rs','src/path/mod.rs'],
 [m('MAX_NESTED_DEPTH checks','src/builder/array.rs'),m('push_data_length','src/vec.rs'),m('checked_element_count','src/builder/mod.rs')])
p('C09','Array accessors agree with each other and respect bounds',
 'For every well-formed array and every index below its length, get, type query, type test, null test, the typed getters and the iterator agree on the element: the typed getter of its own type returns it and every other typed getter reports the expected and actual types. Every index at or above the length is reported as out of bounds with the length and the index, and iteration yields exactly length elements.',
 ['inputs'],'every well-formed array, every index, every accessor',
 'tests check a few indices of one array; accessors x types x positions are not enumerated',
 ['src/yason/array.rs','src/yason/mod.rs'],
 [m('check_index, check_type, read_*','src/yason/array.rs'),m('Yason::read_*','src/yason/mod.rs')])
p('C10','Object accessors agree with each other',
 'For every well-formed object and every key, get, type query, type test, null test, containment and the typed getters agree: all report absence for an absent key, and for a present key the typed getter of the value\'s type returns that value while every other typed getter reports the expected and actual types.',
 ['inputs'],'every well-formed object, every key, every accessor',
 'tests look up a few keys of one object',
 ['src/yason/object.rs','src/yason/mod.rs'],
 [m('find_key, check_key, read_*','src/yason/object.rs'),m('Yason::read_*','src/yason/mod.rs')])
p('C11','Equality compares values, not encodings',
 'Two well-formed values compare equal exactly when they are the same JSON value: same type, numerically equal numbers, equal strings, arrays equal element by element, objects with the same keys and equal values, regardless of the order in which object entries were pushed and of how numbers were written. Comparison never fails on well-formed values.',
 ['inputs'],'every pair of well-formed values',
 'tests/equal.rs compares a dozen pairs; equality is a relation on all pairs, through nested containers',
 ['src/yason/mod.rs','src/yason/array.rs','src/yason/object.rs'],
 [m('Yason::equals, LazyValue::equals','src/yason/mod.rs'),m('Array::equals','src/yason/array.rs'),m('Object::equals','src/yason/object.rs')])
p('C12','Parsing JSON preserves the value',
 'Parsing a JSON text yields a value with the same structure: same nulls, bools, strings, array elements in order, object members (last one wins for repeated keys), and numbers equal to the literal rounded to at least 38 significant digits, with too large numbers reported as overflow and too small ones becoming zero. Text that is not JSON, or that nests deeper than supported, is reported as an error; both parse entry points (owned, and appending to a buffer) give the same bytes.',
 ['inputs'],'every JSON text, every prior buffer content',
 'tests parse a dozen texts',
 ['src/json.rs','src/builder/array.rs','src/builder/object.rs'],
 [m('write_array, write_object','src/json.rs'),m('number2decimal','src/json.rs'),m('YasonBuf::parse, Yason::parse_to','src/json.rs')])
p('C13','Formatted strings and keys are correct JSON strings',
 'A formatted string or key is a valid JSON string literal that decodes to exactly the original text: quote, backslash, slash and all control characters are escaped, and every other character appears verbatim.',
 ['inputs'],'every string',
 'tests format strings containing a few escapes; 32 control characters in every position and adjacency are not sampled',
 ['src/format/mod.rs'],[m('ESCAPE, format_escaped_str','src/format/mod.rs')])
p('C14','Compact formatting is valid JSON denoting the same value',
 'The compact format of every well-formed value is the JSON text of that value without any insignificant whitespace: members and elements in stored order, separated by single commas, names followed by a colon. Parsing it again (up to the nesting depth parsing supports) yields an equal value, and formatting never fails on a well-formed value.',
 ['inputs'],'every well-formed value',
 'tests format a few documents; nesting, emptiness and separators combine without bound',
 ['src/format/mod.rs','src/yason/mod.rs'],[m('Formatter default methods','src/format/mod.rs'),m('LazyValue accessors','src/yason/mod.rs')])
p('C15','Pretty formatting differs from compact only in whitespace',
 'The pretty format of every well-formed value or query result is its compact format with insignificant whitespace added: each element or member on its own line indented by two spaces per nesting level, " : " between name and value, nested containers in members on their own line, at every depth.',
 ['inputs'],'every well-formed value and query result, at every nesting depth',
 'tests pretty-print a few shallow documents',
 ['src/format/pretty.rs','src/format/mod.rs'],[m('PrettyFormatter overrides','src/format/pretty.rs'),m('indent','src/format/pretty.rs')])
p('C16','Path expressions parse exactly the path grammar',
 'Parsing a path expression accepts exactly the path grammar ($, .key, ."quoted key", .*, [index], [last - n], [a to b], lists of those, [*], ..key, trailing .count()/.size()/.type(), with optional whitespace) and yields the steps written, in order, with the written keys and indices. Every other text is reported as an error whose position lies within the text (or at its end); parsing never panics.',
 ['inputs'],'every text',
 'tests list about forty accepted and thirty rejected texts',
 ['src/path/parse.rs'],[m('PathParser','src/path/parse.rs')])
p('C17','Array subscripts select exactly the positions they name',
 'On an array of length n, [i] selects element i, [last - k] element n-1-k, [a to b] every position between the two ends inclusive in increasing order whichever end comes first, and a list selects the union in written order with repetitions; positions outside the array select nothing and are not an error, including on empty arrays. On a value that is not an array each subscript behaves as on an array holding just that value, selecting it at most once.',
 ['inputs'],'every array length, every subscript and list of subscripts',
 'tests use one five-element array; boundary arithmetic on index, last and length is not enumerated',
 ['src/path/query.rs'],[m('array_index_match, array_last_match, array_range_match, array_multi_steps_match','src/path/query.rs'),m('find_range, non_array_relaxed_match','src/path/query.rs')])
p('C18','Path queries return exactly the values the steps denote, in order',
 'A query with wrapper returns, in document order (object members in stored order), exactly the values reached by applying the steps one after another: .key selects the member of an object, or of each object reached through arrays; .* all member values likewise; [*] all elements (or the value itself if not an array); ..key the member named key of the value and of every descendant object. Queries never fail on well-formed values except as documented for missing wrappers.',
 ['inputs'],'every well-formed value and every path expression',
 'tests run about forty paths on one document',
 ['src/path/query.rs','src/path/mod.rs'],[m('Selector::query_internal and *_match','src/path/query.rs')])
p('C19','Existence agrees with querying',
 'For every well-formed value and every path without a trailing method, the existence test is true exactly when the query with wrapper returns at least one value. Existence tests on paths with a trailing method are reported as an invalid path.',
 ['inputs'],'every well-formed value, every path expression',
 'tests compare about thirty fixed results',
 ['src/path/query.rs','src/path/mod.rs'],[m('for_exists early returns','src/path/query.rs'),m('PathExpression::exists','src/path/mod.rs')])
p('C20','Wrapper and method rules of query results',
 'Without wrapper, a query yields nothing for no match, the single value for one match and an error for more than one match; a path ending in a method is then an error. With wrapper, .size() yields for each match its length if it is an array and 1 otherwise, .type() its type name, and .count() the one number of matches, 0 included; any other query without match yields no result.',
 ['inputs'],'every well-formed value, every path expression',
 'tests check three method queries and five errors',
 ['src/path/mod.rs','src/path/query.rs'],[m('PathExpression::query','src/path/mod.rs'),m('func_step_match','src/path/query.rs')])
p('C21','Query results in a buffer equal the result list',
 'When a result buffer is supplied with wrapper, the query yields an array whose elements are exactly the values the same query returns as a list, in the same order, and the query and result buffers are cleared first so that earlier contents never leak into the result; formatting the result gives the same text in either form.',
 ['inputs','histories'],'every well-formed value, every path, every prior content of the supplied buffers',
 'tests reuse no buffers and compare a handful of results',
 ['src/path/mod.rs','src/builder/array.rs','src/format/mod.rs'],[m('values_to_yason','src/path/mod.rs'),m('push_object_or_array','src/builder/array.rs'),m('values_format_to','src/path/mod.rs')])
p('C22','Type tags convert both ways and reject everything else',
 'Each of the six types has its own tag byte, converting a type to its tag and back gives the same type, and converting any other byte is reported as an invalid type carrying that byte; the type of a value is the one its first byte denotes. The type names are object, array, string, number, bool and null respectively.',
 ['inputs'],'all 256 byte values and all six types',
 'no test converts tags',
 ['src/data_type.rs','src/yason/mod.rs'],[m('TryFrom<u8> for DataType, From<DataType> for u8, name','src/data_type.rs'),m('Yason::data_type','src/yason/mod.rs')])
p('C23','Values survive conversion to and from owned and generic forms',
 'Copying a value to an owned buffer (to_owned, to_yason_buf, clone_from_yason) yields the same bytes; converting a value to its typed form and encoding that again as a stand-alone value yields an equal value.',
 ['inputs'],'every well-formed value, every prior content of the target',
 'no test covers re-encoding of elements taken out of containers',
 ['src/yason/mod.rs'],[m('Value::try_from, Value::try_to_yason','src/yason/mod.rs'),m('to_yason_buf, clone_from_yason','src/yason/mod.rs')])
p('C24','Serialized values deserialize to equal values',
 'Serializing an owned value with serde and deserializing the result yields an equal value, through human-readable formats (as its compact JSON text, up to the nesting depth parsing supports) and through binary formats (as its bytes, unchanged).',
 ['inputs'],'every well-formed value, both kinds of serde format',
 'one value through one binary format is tested',
 ['src/serde.rs'],[m('Serialize/Deserialize for YasonBuf','src/serde.rs')])
with open('/verif/properties.jsonl','w') as f:
    for d in P:
        assert len(d['title'])<=80,d['title']
        f.write(json.dumps(d,ensure_ascii=False)+'\n')
print(len(P))
