@items
impl<'a> Depth<'a> {
    pub open spec fn d(&self) -> usize { match self { Depth::Owned(d) => *d, Depth::Borrowed(d) => **d } }
    pub open spec fn lent(&self) -> bool { self is Borrowed }
    /// What the counter borrowed will be when the borrow ends.
    #[verifier::prophetic]
    pub open spec fn fin(&self) -> usize { match self { Depth::Owned(_) => 0, Depth::Borrowed(d) => *final(*d) } }
}
impl vstd::std_specs::convert::FromSpecImpl<TryReserveError> for BuildError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: TryReserveError) -> BuildError { BuildError::TryReserveError(e) }
}
@end
@keep impl From<TryReserveError> for BuildError
@fn From@BuildError::from
@fn checked_element_count
%ret r
%spec
    ensures
        count <= 65535 ==> r == Ok::<u16, BuildError>(count as u16),
        count > 65535 ==> r == Err::<u16, BuildError>(BuildError::TooManyElements(count)),
@fn Depth::new
%ret r
%spec
    ensures r.d() == 0,
@fn Depth::borrow_mut
%ret r
%spec
    ensures r.lent(), final(self).lent() == old(self).lent(), r.d() == old(self).d(), final(self).d() == r.fin(), final(self).fin() == old(self).fin(), final(self).lent() == old(self).lent(),
@fn Depth::depth
%ret r
%spec
    ensures r == self.d(),
@fn Depth::increase
%spec
    requires old(self).d() < 1000,
    ensures final(self).d() == old(self).d() + 1, final(self).fin() == old(self).fin(), final(self).lent() == old(self).lent(),
@fn Depth::decrease
%spec
    requires old(self).d() > 0,
    ensures final(self).d() == old(self).d() - 1, final(self).fin() == old(self).fin(), final(self).lent() == old(self).lent(),
