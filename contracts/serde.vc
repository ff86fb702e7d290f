@items
use crate::prelude::fmt::Formatter;
use crate::serde_json::json_of;
use crate::vx_serde::{Msg, Serialize as _, ser::Serializer as _, ser::Error as _, de::Visitor as _, de::Deserializer as _, de::Error as _};
/// What a document is handed to a format as.
pub open spec fn sent(human: bool, b: Seq<u8>, m: Msg) -> bool {
    if human { m is Text && vstd::utf8::encode_utf8(m->Text_0) == compact(val(b)) } else { m == Msg::Bytes(b) }
}
/// A document made of what a format gives back.
pub open spec fn received(m: Msg, b: Seq<u8>) -> bool {
    match m {
        Msg::Text(t) => json_of(t) matches Some(j) && nfail(j) is None && doc(b) && b == npay(j) && val(b) == jval(j),
        Msg::Bytes(x) => b == x,
    }
}
/// Why what a format gives back may be refused: no memory, no JSON, or a limit.
pub open spec fn refused(m: Msg, e: BuildError) -> bool {
    m matches Msg::Text(t) && (e is TryReserveError || (json_of(t) matches Some(j) && nfail(j) == Some(e)) || (json_of(t) is None && e is JsonError))
}
/// The error of the format that reports it.
pub open spec fn reports<E: crate::vx_serde::de::Error>(m: Msg, e: E) -> bool {
    if m is Text { exists|b: BuildError| refused(m, b) && #[trigger] e.says(b) } else { exists|b: std::collections::TryReserveError| #[trigger] e.says(b) }
}
/// C24: a document made of what a document was handed to a format as is equal to it (the same bytes, for a binary format).
pub proof fn lemma_round_trip(human: bool, b: Seq<u8>, m: Msg, y: Seq<u8>)
    requires doc(b), sent(human, b, m), received(m, y), nest(val(b)) <= 127, free_keys(val(b))
    ensures doc(y), sval_eq(val(y), val(b)), !human ==> y == b
{
    if human { lemma_reparse(b, m->Text_0); } else { lemma_eq_refl(val(b)); }
}
@end
@inherent impl serde::Serialize for YasonBuf
@inherent impl serde::Deserialize<'de> for YasonBuf
@keep impl serde::de::Visitor<'de> for YasonBufVisitor
@fn YasonBuf::serialize
%ret r
%opt viaderef=format_to,as_bytes
%spec
    requires doc(self.bytes@),
    ensures
        r matches Ok(o) ==> exists|m: Msg| sent(serializer.human(), self.bytes@, m) && #[trigger] serializer.wrote(m, o),
        r matches Err(e) ==> exists|m: Msg| sent(serializer.human(), self.bytes@, m) && #[trigger] serializer.failed(m, e),
@fn YasonBuf::deserialize
%ret r
%spec
    // a format gives back byte strings it was handed for a document
    requires forall|t: bool, m: Msg| #[trigger] deserializer.gives(t, m) && m is Bytes ==> m->Bytes_0.len() > 0,
    ensures
        r matches Ok(y) ==> exists|m: Msg| #[trigger] deserializer.gives(deserializer.human(), m) && received(m, y.bytes@),
        r matches Err(e) ==> deserializer.broken(e) || exists|m: Msg| #[trigger] deserializer.gives(deserializer.human(), m) && reports(m, e),
@fn Visitor@YasonBufVisitor::@spec
%spec
    open spec fn accepts(self, m: Msg) -> bool { m is Bytes ==> m->Bytes_0.len() > 0 }
    open spec fn takes(self, m: Msg, v: YasonBuf) -> bool { received(m, v.bytes@) }
    open spec fn refuses<E: crate::vx_serde::de::Error>(self, m: Msg, e: E) -> bool { reports(m, e) }
@fn Visitor@YasonBufVisitor::expecting
%external writes the word for the value in an error message
@fn Visitor@YasonBufVisitor::visit_str
%ret r
@fn Visitor@YasonBufVisitor::visit_bytes
%ret r
%hint end
    proof { assert(res.bytes@ =~= v@); }
