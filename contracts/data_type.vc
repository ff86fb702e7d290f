@keep impl TryFrom<u8> for DataType
@keep impl From<DataType> for u8
@items
pub open spec fn tag(d: DataType) -> u8 {
    match d {
        DataType::Object => 1u8,
        DataType::Array => 2u8,
        DataType::String => 3u8,
        DataType::Number => 4u8,
        DataType::Bool => 5u8,
        DataType::Null => 6u8,
    }
}
pub open spec fn of_tag(t: u8) -> DataType {
    if t == 1 { DataType::Object }
    else if t == 2 { DataType::Array }
    else if t == 3 { DataType::String }
    else if t == 4 { DataType::Number }
    else if t == 5 { DataType::Bool }
    else { DataType::Null }
}
pub open spec fn is_tag(t: u8) -> bool { 1 <= t <= 6 }
pub open spec fn type_name(d: DataType) -> Seq<char> {
    match d {
        DataType::Object => "object"@,
        DataType::Array => "array"@,
        DataType::String => "string"@,
        DataType::Number => "number"@,
        DataType::Bool => "bool"@,
        DataType::Null => "null"@,
    }
}
/// C22: the tags are a bijection between the six types and 1..=6.
pub proof fn lemma_tags(d: DataType, t: u8)
    ensures
        is_tag(tag(d)),
        of_tag(tag(d)) == d,
        is_tag(t) ==> tag(of_tag(t)) == t,
{}
impl vstd::std_specs::convert::FromSpecImpl<DataType> for u8 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(d: DataType) -> u8 { tag(d) }
}
impl vstd::std_specs::convert::TryFromSpecImpl<u8> for DataType {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(t: u8) -> Result<DataType, InvalidDataType> {
        if is_tag(t) { Ok(of_tag(t)) } else { Err(InvalidDataType(t)) }
    }
}
@end
@fn DataType::name
%ret r
%spec
    ensures r@ == type_name(self),
@fn TryFrom@DataType::try_from
@fn From@u8::from
