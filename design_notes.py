# Per-property remarks for DESIGN.md (tools/gen_design.py).
NUM='decimal-rs: encoding a number gives 1 to 18 bytes that decode to it'
SJ='serde_json: what a text denotes (json_of), number literals, no repeated keys in a map'
NOTES={
'C01':dict(oracle='`wf`/`val` in spec.rs: what a sequence of bytes denotes, written from the format documentation, not from the code.',assumes=NUM+'; `Yason::new_unchecked` (pointer cast to the transparent wrapper).',beyond='the claim is over every string length, number and buffer content; the tests have a dozen scalars.',cost='about 10 s.',search='length boundaries of the varint, number boundaries, random scalars, every mismatching accessor.'),
'C02':dict(oracle='`enc_var`, `var_n`, `var_v`, `var_ok`, `var_bad` in util.vc.',beyond='2^28 lengths and every buffer behind them; the loop of the encoder works with shifts that only bit-vector reasoning settles.',limits='decoding four continuation bytes in a row is `unreachable!` in the code; that is excluded as a precondition (`var_bad`), since no encoder of the crate produces it.',cost='5 s.',search='all boundary lengths, truncations, random trailing bytes.'),
'C03':dict(oracle='`wf_v`/`val` for arrays; the builder state denotes a sequence of values (bspec.rs `ainv`).',assumes=NUM+'; allocation may fail at any point.',beyond='histories of pushes of any length, at any nesting and starting offset; embedded builders share the parent buffer through a mutable borrow, which is verified by prophecy.',cost='15 s.',search='random nested values, owned and appended to dirty buffers, arrays beyond 256 and 65535 bytes.'),
'C04':dict(oracle='the set of pairs pushed; `member` (spec.rs) for lookups.',assumes=NUM,beyond='every order of pushes and every set of keys, including keys that differ in length only by a multiple of 256 or in the last byte only.',limits='objects with repeated keys pushed through the builder (a debug assertion only excludes disorder, not repetition): which of the two is found is unspecified.',cost='20 s.',search='random and resembling keys, absent keys near the present ones, both values of the sorted flag.'),
'C05':dict(oracle='strict order on (length, bytes); uniqueness of the sorted arrangement (`lemma_order_unique`).',assumes='as C04.',beyond='the two unaligned reads and the out-of-bounds shift found here (fixed) never failed on the developers\' machines.',cost='20 s.',search='as C04, the three iterators side by side.'),
'C06':dict(oracle='the byte sequences of bspec.rs (`arr_bytes`, `put`, `with_entry`, `obj` layout), written from the crate documentation.',assumes=NUM,beyond='"never on what the buffer held before" is a statement on all previous contents of spare memory; two such leaks were found and fixed.',cost='20 s.',search='an independent encoder in the harness (model.rs `enc`), buffers whose spare capacity is filled with junk.'),
'C07':dict(oracle='exact error postconditions over the builder state (depths, counts).',beyond='histories: a push refused, then others, then finish; an embedded builder dropped unfinished at any depth.',limits='when the allocation of an embedded builder fails after its parent recorded it, the parent counts it; the error is reported and nothing is claimed after a failed allocation.',cost='20 s.',search='random programs of pushes, refused pushes, leaked and failed embedded builders.'),
'C08':dict(oracle='the four limits as constants of the specification.',beyond='documents of 2 GiB and 65536-element arrays cannot be sampled; casts are proved in range instead.',limits='finish of an object or array of more than 2 GiB is proved, not run.',cost='20 s.',search='nesting 99 to 102 in every mix of the two containers, key and count limits by one, string limit.'),
'C09':dict(oracle='`elem` (spec.rs): the value at a position.',assumes=NUM,beyond='every well-formed document, not only those the builders of this crate make.',limits='malformed documents: `Yason::new_unchecked` makes validity the caller\'s duty.',cost='15 s.',search='every accessor at every index and beyond, elements of every type.'),
'C10':dict(oracle='`member` (spec.rs).',assumes=NUM,beyond='the binary search is correct for every sorted key table.',cost='25 s.',search='present, absent and near keys through every accessor.'),
'C11':dict(oracle='`eq_v` (spec.rs): structural equality of denotations, numbers by the equality of decimal-rs.',assumes=NUM+', equality of decimal-rs is reflexive.',beyond='nested values of any shape; the shortcut on different encodings of equal numbers found here was never sampled.',cost='45 s.',search='disguised (reordered, renumbered) and minimally mutated pairs.'),
'C12':dict(oracle='`npay` (nspec.rs): the payload denoted by a serde_json value; a JSON reader as a specification function (jspec.rs).',assumes=SJ+'; decimal-rs: parsing a literal (`dec_parse`); `String` formatting of a number prints its literal.',beyond='recursion over values of any shape, both entry points, errors at any depth.',limits='the grammar of JSON text itself is serde_json\'s; the harness compares with an independent reader.',cost='35 s.',search='texts mutated and generated, against an independent JSON reader and exact decimal arithmetic. One finding on record (reserved key).'),
'C13':dict(oracle='a JSON string reader (`rstr`, jspec.rs), and the escapes listed in fspec.rs.',assumes='`std::str` facts of vstd (UTF-8).',beyond='all 256 table entries and all strings; 27 of 32 control characters were wrong (fixed).',cost='30 s.',search='every character up to U+0100, mixes of them, surrogates\' neighbours.'),
'C14':dict(oracle='`ctext` (fspec.rs) and the JSON reader of jspec.rs.',assumes='decimal-rs writes a JSON number that denotes it (`axiom_num_json`); '+SJ,beyond='every nesting and every writer, failing ones included.',limits='a document deeper than serde_json reads (128) is formatted but not parsed again; such documents cannot be built here (100).',cost='30 s.',search='an independent printer and reader in the harness. One finding on record (reserved key).'),
'C15':dict(oracle='`ptext` (fspec.rs); `strip` removes white space outside strings (jspec.rs).',assumes='as C14.',beyond='every level: indentation beyond 200 columns panicked (fixed).',cost='30 s.',search='independent pretty printer, nestings up to 100.'),
'C16':dict(oracle='the grammar as specification functions over the text (gspec.rs), written from the documentation of PathExpression.',beyond='acceptance *exactly* when the grammar accepts is a statement on all texts; a subscript list recursed once per subscript and overflowed the stack (fixed).',limits='quoted keys keep their escapes as written; only the space is white space around the leading `$`: both taken as the documented behaviour. Stack use is not modelled.',cost='35 s.',search='an independent recursive-descent parser (path.rs) on generated and mutated texts, indices around 2^31, 2^32, 2^63, 2^64.'),
'C17':dict(oracle='`positions` (pspec.rs) enumerates the selected indices.',beyond='all lengths and all indices up to 2^31, on arrays and non-arrays.',cost='55 s.',search='small arrays exhaustively against all subscripts of small distance, plus boundary indices.'),
'C18':dict(oracle='`sel` (pspec.rs): the values a list of steps selects.',beyond='every document and every path; descents over whole trees.',limits='recursion depth is the number of steps plus the nesting; a path of hundreds of thousands of steps exhausts the stack (no contract on stack use is possible in Verus).',cost='100 s.',search='independent evaluator (path.rs) over random documents and paths derived from them.'),
'C19':dict(oracle='`sel` is empty or not.',beyond='early exits at every step kind and every nesting.',cost='140 s.',search='as C18.'),
'C20':dict(oracle='`answered` (path.vc).',beyond='every combination of wrapper, method, buffer and number of matches.',limits='without wrapper the documentation says that a single match is also written to the result buffer; the code returns the value by reference and leaves the buffer alone. Taken as the documented `QueriedValue` variant meaning.',cost='100 s.',search='as C18 with all flag combinations.'),
'C21':dict(oracle='`sel`, `wf_v`/`val` of the result buffer.',assumes=NUM,beyond='every earlier content of both buffers.',cost='65 s.',search='dirty query and result buffers, reused over several queries.'),
'C22':dict(oracle='the six tag bytes and names.',beyond='small, listed because every other property rests on it.',cost='5 s.',search='all 256 bytes.'),
'C23':dict(oracle='equality of bytes; `val` for the typed form.',assumes=NUM+'; `Yason::new_unchecked` (pointer cast).',beyond='every value.',cost='10 s.',search='all copying functions over values left in the target before.'),
'C24':dict(oracle='`val` equality, `ctext`.',assumes='a serde format gives back what it was handed (modelled by `Msg` of the prelude); '+SJ,beyond='every Serializer and Deserializer, not only bincode.',limits='bytes that are no document, handed in by a binary format, are accepted unchecked (the documented risk of `new_unchecked`); empty bytes fail a debug assertion.',cost='35 s.',search='bincode (slice, stream, sequences) and serde_json (value, string, stream). One finding on record (reserved key).'),
}
