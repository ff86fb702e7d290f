# What each check decides: the functions whose obligations carry the property ("scope": regular
# expressions over function ids; "lemmas": specification-level theorems), and the size of the
# concrete search. Modules to verify follow from the functions in scope.
READ = [r'yason::Yason::(data_type|get|slice|read_.*|check_type|is_type|as_bytes)', r'data_type::TryFrom@DataType::try_from',
        r'util::decode_varint']
ARR = [r'yason::array::(?!Array::equals).*', r'yason::Yason::array', r'yason::LazyValue::(new|value|data_type|object|array|string|number|bool|try_from)',
       r'yason::Value::(data_type|try_from)', r'yason::Yason::(object|string|number|bool)(_unchecked)?'] + READ
OBJ = [r'yason::object::(?!Object::equals).*', r'yason::Yason::object', r'yason::LazyValue::(new|value|data_type|object|array|string|number|bool|try_from)',
       r'yason::Value::(data_type|try_from)', r'yason::Yason::(array|string|number|bool)(_unchecked)?', r'util::cmp_key'] + READ

VEC = [r'vec::VecExt@Vec::.*', r'util::encode_varint', r'data_type::From@u8::from']
DEPTH = [r'builder::Depth::.*', r'builder::From@BuildError::from', r'builder::checked_element_count']
BARR = [r'builder::array::.*'] + VEC + DEPTH
BOBJ = [r'builder::object::.*', r'util::cmp_key'] + VEC + DEPTH
STR = [r'format::ESCAPE_at', r'format::format_escaped_str', r'format::WriteExt::write_bytes']
LAZY = [r'yason::LazyValue::.*', r'yason::array::(Array::(read_.*|len|new_unchecked|lazy_iter)|LazyArrayIter::.*)',
        r'yason::object::(Object::(read_.*|len|new_unchecked|lazy_iter|skip_key)|LazyObjectIter::.*)']
SEL = [r'path::query::.*'] + LAZY + READ + [r'yason::Yason::(string|number|bool|object|array)(_unchecked)?', r'yason::Value::(data_type|try_from)']
PATHQ = [r'path::(push_value|values_to_yason|values_format_to|QueriedValue::.*|QueryBuf::.*)', r'path::PathExpression::(query|exists|has_method|has_method_count|steps)']
FRAME = ['bspec::lemma_frame_v', 'bspec::lemma_frame_e', 'bspec::lemma_sub_at', 'bspec::lemma_str_at', 'bspec::lemma_num_at']

PROPS = {
 'C01': dict(
   scope=[r'builder::scalar::.*', r'yason::Yason::(string|number|bool|is_null|string_unchecked|number_unchecked|bool_unchecked|object|array)'] + VEC + READ,
   lemmas=['bspec::lemma_pl_str', 'bspec::lemma_pl_num', 'bspec::lemma_pl_small', 'builder::scalar::lemma_scalar', 'util::lemma_var_roundtrip'],
   note='every constructor of Scalar ensures that the buffer is the old one followed by the encoding, that the view returned is that encoding and that it denotes the value given; every typed accessor ensures it returns the value denoted or the exact mismatch error.'),
 'C03': dict(
   scope=BARR + ARR, lemmas=['bspec::lemma_arr_new', 'bspec::lemma_arr_push', 'bspec::lemma_arr_finish', 'builder::array::InnerArrayBuilder::lemma_pushed',
     'builder::array::InnerArrayBuilder::lemma_child', 'builder::array::InnerArrayBuilder::lemma_finished', 'spec::lemma_elem'] + FRAME,
   note='the array builder carries an invariant over the bytes written so far; every push appends exactly one value to the sequence it denotes and leaves the bytes before the array alone, finish yields a well-formed array denoting that sequence, and the accessors are specified against what a well-formed array denotes. Embedded containers: the builder handed out shares the buffer (prophecy), lemma_child restores the invariant.'),
 'C04': dict(
   scope=BOBJ + OBJ, lemmas=['bspec::lemma_obj_new', 'bspec::lemma_obj_push', 'bspec::lemma_obj_finish', 'bspec::lemma_key_moved', 'bspec::lemma_slot', 'bspec::lemma_insert_pairs', 'bspec::lemma_with_key',
     'builder::object::InnerObjectBuilder::lemma_pushed', 'builder::object::InnerObjectBuilder::lemma_did', 'builder::object::InnerObjectBuilder::lemma_child', 'builder::object::InnerObjectBuilder::lemma_finished',
     'spec::lemma_member', 'spec::lemma_key_unique', 'spec::lemma_key_idx'] + FRAME,
   note='every push inserts exactly one pair into the members the builder holds (at the position its binary search finds, or last for keys pushed in order), lemma_insert_pairs makes that a statement on the set of pairs, finish yields a well-formed object denoting the members, lookups are specified against the member with that key.'),
 'C05': dict(
   scope=BOBJ + OBJ, lemmas=['bspec::lemma_obj_push', 'bspec::lemma_obj_finish', 'bspec::lemma_slot', 'bspec::lemma_adjacent', 'bspec::lemma_order_unique', 'builder::object::lemma_read_key', 'builder::object::lemma_finish_keys', 'spec::lemma_member'],
   note='the object builder keeps its members in non-decreasing key order (length, then bytes), finish turns that into the strict order of a well-formed object, the three iterators are specified position by position against the members, lemma_order_unique shows that the order is determined by the set of pairs alone.'),
 'C06': dict(
   scope=[r'builder::scalar::.*'] + BARR + BOBJ, lemmas=['bspec::lemma_slot_unique', 'bspec::lemma_arr_new', 'bspec::lemma_obj_new', 'bspec::lemma_arr_push', 'bspec::lemma_obj_push', 'util::lemma_var_fewest'],
   note='every write of the Vec extension trait and every builder operation has the exact resulting bytes as its postcondition, as a function of the bytes before and the arguments; lemma_slot_unique makes the position of a member a function of the keys pushed.'),
 'C07': dict(
   scope=BARR + BOBJ, lemmas=['builder::array::InnerArrayBuilder::lemma_finished', 'builder::object::InnerObjectBuilder::lemma_finished'],
   note='push and finish of both builders have exact error postconditions for every state (unfinished embedded builder, too many elements, too few), and a push refused for its state or arguments leaves every field and the buffer as they were.'),
 'C08': dict(
   scope=[r'builder::scalar::.*'] + BARR + BOBJ, lemmas=['util::lemma_enc_var'],
   note='the limits are exact postconditions: which error, with which payload, exactly when; casts that could truncate are proved in range.'),
 'C02': dict(
   scope=[r'util::(encode|decode)_varint', r'vec::VecExt@Vec::push_data_length'],
   lemmas=['util::lemma_enc_var', 'util::lemma_var_roundtrip', 'util::lemma_var_fewest', 'util::lemma_var_local'],
   note='encode_varint and decode_varint carry full functional contracts for every length and every buffer; the round trip and the fewest-bytes claims are lemmas over those contracts.'),
 'C09': dict(
   scope=ARR, lemmas=['spec::lemma_elem'],
   note='every accessor and iterator of Array is specified against one specification function (the value at an element position of any well-formed document), so they agree by construction; bounds and mismatch errors are exact postconditions.'),
 'C10': dict(
   scope=OBJ, lemmas=['spec::lemma_member', 'spec::lemma_key_unique', 'spec::lemma_key_idx', 'yason::object::lemma_found'],
   note='every accessor of Object, including the binary search find_key, is specified against one specification function (the member with that key, if any) for every well-formed object and every key.'),
 'C11': dict(
   scope=[r'yason::(Yason|YasonBuf)::(equals|eq|as_ref|deref)', r'yason::LazyValue::.*', r'yason::array::(Array::equals|Array::(read_.*|len|new_unchecked|lazy_iter)|LazyArrayIter::.*)',
     r'yason::object::(Object::equals|Object::(read_.*|len|new_unchecked|lazy_iter|skip_key)|LazyObjectIter::.*)'] + READ,
   lemmas=['spec::lemma_eq_refl', 'spec::lemma_eq_tags', 'spec::lemma_eq_arr', 'spec::lemma_eq_obj', 'spec::lemma_elem', 'spec::lemma_member', 'yason::lemma_lok', 'bspec::lemma_order_unique'],
   note='the four mutually recursive equals functions and both PartialEq implementations return exactly whether the two values denoted are the same JSON value (numbers by the numeric equality assumed of decimal-rs), never an error, and terminate; lemma_order_unique makes the members of an object independent of the order of the pushes.'),
 'C23': dict(
   scope=[r'yason::Yason::(to_yason_buf|to_owned|as_bytes|as_ref|equals)', r'yason::YasonBuf::.*', r'yason::Value::(try_to_yason|try_from|data_type)', r'builder::scalar::Scalar::.*_with_vec', r'yason::(array::Array|object::Object)::yason',
     r'yason::Yason::(string|number|bool)_unchecked'] + VEC + READ,
   lemmas=['spec::lemma_whole', 'spec::lemma_eq_refl', 'builder::scalar::lemma_scalar', 'bspec::lemma_pl_str', 'bspec::lemma_pl_num', 'bspec::lemma_pl_small', 'spec::lemma_doc'],
   note='every copying function ensures equal bytes; Value::try_from denotes the value of the Yason, try_to_yason yields a well-formed Yason denoting the value, and equal denotations compare equal (lemma_eq_refl with the contract of equals).'),
 'C12': dict(
   scope=[r'json::.*', r'builder::scalar::Scalar::.*'] + BARR + BOBJ,
   lemmas=['rspec::lemma_parse_text', 'rspec::lemma_reordered', 'nspec::lemma_members', 'nspec::lemma_elems', 'nspec::lemma_mem_keys', 'nspec::lemma_slot_exists', 'json::lemma_arr_nested', 'json::lemma_obj_nested', 'json::lemma_arr_step', 'json::lemma_obj_step'],
   note='write_array and write_object are verified for every builder that implements the (contracted) builder traits: they push exactly the elements and members of the serde_json value, by induction over its nesting; parse, parse_to and try_from denote the value the text denotes (json_of, assumed of serde_json) with the same bytes (npay) for both entry points, or fail for the first reason in document order; numbers are what decimal-rs parses from the literal serde_json prints; lemma_parse_text: what is denoted is the value written according to a JSON reader written as a specification function (axiom_json_reads, assumed of serde_json).'),
 'C13': dict(
   scope=STR + [r'format::CompactFormatter::(write_string|begin_string|end_string)', r'format::pretty::PrettyFormatter::(write_string|begin_string|end_string)'],
   lemmas=['jspec::lemma_string_literal', 'jspec::lemma_rstr', 'jspec::lemma_esc_verbatim', 'fspec::lemma_escs_run'],
   note='the 256 entries of the escape table are proved equal to the specified escapes, format_escaped_str appends exactly the escaped text for every string, and lemma_string_literal shows that a JSON reader gets back exactly the original bytes and stops at the closing quote, whatever follows.'),
 'C14': dict(
   scope=STR + [r'format::CompactFormatter::.*', r'format::LazyFormat::.*', r'yason::Yason::(format|format_to)', r'yason::Value::(format_to|data_type)', r'path::(values_format_to|QueriedValue::format_to)'] + LAZY + READ,
   lemmas=['jspec::lemma_compact_dense', 'jspec::lemma_compact_reads', 'rspec::lemma_reparse', 'jspec::lemma_read', 'jspec::lemma_back', 'jspec::lemma_string_literal', 'spec::lemma_elem', 'spec::lemma_member', 'yason::lemma_lok'],
   note='every method of the compact formatter appends exactly the specified text of the value (for every well-formed value, whatever the writer), and never fails when the writer does not; lemma_compact_dense: no white space outside strings; lemma_compact_reads: a JSON reader written as a specification function reads the text back as an equal value, and lemma_reparse: so does the parser of this crate (the text of a number is assumed of decimal-rs to be a JSON number denoting it).'),
 'C15': dict(
   scope=STR + [r'format::pretty::.*', r'format::LazyFormat::.*', r'format::CompactFormatter::write_(values|value|string|number|bool|null)', r'yason::Yason::(format|format_to)', r'yason::Value::(format_to|data_type)', r'path::(values_format_to|QueriedValue::format_to)'] + LAZY + READ,
   lemmas=['jspec::lemma_pretty_compact', 'jspec::lemma_strip_cat', 'jspec::lemma_sees_jstr', 'spec::lemma_elem', 'spec::lemma_member', 'yason::lemma_lok'],
   note='every method of the pretty formatter appends exactly the specified text at the current nesting level, whatever the level, and restores it; lemma_pretty_compact: removing the white space outside strings from that text gives the compact text.'),
 'C16': dict(
   scope=[r'path::parse::.*', r'path::PathExpression::(new|from_str)'],
   lemmas=['gspec::lemma_span_is', 'gspec::lemma_number', 'gspec::lemma_ws', 'gspec::lemma_p_step', 'gspec::lemma_alnum'],
   note='the grammar is a set of specification functions over the text (gspec.rs) giving the steps written and the position behind them; every function of the parser ensures that it accepts exactly when the grammar does (memory aside), with those steps and that position, and that every error position is inside the text; panics and overflows are obligations. Whether a text is UTF-8 is never in doubt for a Rust &str; the quoted keys are compared as written, escapes undecoded.'),
 'C17': dict(
   scope=SEL, lemmas=['pspec::lemma_rng', 'pspec::lemma_rng_one', 'pspec::lemma_multi', 'pspec::lemma_positions', 'pspec::lemma_at_next', 'pspec::lemma_multi_next', 'pspec::lemma_arr_view'],
   note='the array subscript functions select exactly the positions the specification enumerates; lemma_rng, lemma_multi and lemma_positions show that these are the positions the property names, in that order.'),
 'C18': dict(
   scope=SEL + PATHQ, lemmas=['pspec::lemma_sel', 'pspec::lemma_sel_key', 'pspec::lemma_mem_next', 'pspec::lemma_at_next', 'pspec::lemma_obj_view', 'pspec::lemma_arr_view', 'path::query::lemma_vals_push', 'spec::lemma_elem', 'spec::lemma_member'],
   note='one specification function (the values a list of steps selects from a value, in order) is the postcondition of every function of the selector, for every well-formed value and every list of steps the parser can produce; queries never fail on well-formed values but for memory.'),
 'C19': dict(
   scope=SEL + PATHQ, lemmas=['path::lemma_exists', 'pspec::lemma_sel', 'pspec::lemma_at_mono', 'pspec::lemma_mem_mono'],
   note='the early exits of the existence test are specified as: some value found exactly when the selection is not empty; exists returns exactly that, lemma_exists states the agreement with the contract of query.'),
 'C20': dict(
   scope=SEL + PATHQ, lemmas=['pspec::lemma_sel'],
   note='query has an exact postcondition (answered) for each combination of wrapper, trailing method and number of matches; func_step_match yields exactly the specified value per match.'),
 'C21': dict(
   scope=PATHQ + [r'format::(CompactFormatter|pretty::PrettyFormatter)::write_values', r'builder::array::.*'] + VEC + DEPTH,
   lemmas=['path::lemma_same_text'] + FRAME,
   note='query with a result buffer ensures that the buffer holds a well-formed array of exactly the values selected, whatever was in either buffer before; the list form ensures the same values; lemma_same_text: both forms are formatted to the same text.'),
 'C22': dict(
   scope=[r'data_type::.*', r'yason::Yason::(data_type|read_type|is_type|check_type)'],
   lemmas=['data_type::lemma_tags'],
   note='tag conversion both ways, the error for every other byte and the type names are exact postconditions.'),
 'C24': dict(
   scope=[r'serde::.*', r'json::.*', r'format::LazyFormat::.*', r'format::CompactFormatter::.*', r'yason::(Yason|YasonBuf)::(format_to|as_bytes|deref|new_unchecked)'] + STR,
   lemmas=['serde::lemma_round_trip', 'rspec::lemma_reparse', 'rspec::lemma_denotes', 'rspec::lemma_ordered', 'rspec::lemma_same_size', 'rspec::lemma_back_shape', 'jspec::lemma_read', 'jspec::lemma_back', 'nspec::lemma_members', 'spec::lemma_eq_refl'],
   note='serialize and deserialize are verified for every Serializer and Deserializer: the format is handed the bytes of the document, or its compact text when human readable, and what the format gives back becomes the document with those bytes, or the parse of that text; lemma_round_trip: the result is equal to the original (the same bytes through a binary format). That a format gives back what it was handed is the format\'s own matter; serde_json reading a text as the JSON value written is assumed (axiom_json_reads).'),
}
NOT_APPLICABLE = {}
