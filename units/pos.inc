//@ rule offset : u32 ==> pub offset : u32
//@ rule start : Pos , end : Pos ==> pub start : Pos , pub end : Pos
//@ type ticc-syntax/src/pos.rs Pos | #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ type ticc-syntax/src/pos.rs Span | #[derive(Clone, Copy, PartialEq, Eq, Structural)]
/// derived: compares the offsets
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Pos {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Pos) -> Option<core::cmp::Ordering> {
        if self.offset < o.offset { Some(core::cmp::Ordering::Less) } else if self.offset > o.offset { Some(core::cmp::Ordering::Greater) } else { Some(core::cmp::Ordering::Equal) }
    }
}
impl PartialOrd for Pos {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &Pos) -> (r: Option<core::cmp::Ordering>) { unimplemented!() }
}
impl Pos {
//@ fn ticc-syntax/src/pos.rs Pos::source_pos
//@ ret r
    ensures r == self.offset,
//@ end
}
impl Span {
//@ fn ticc-syntax/src/pos.rs Span::start
//@ ret r
    ensures r == self.start,
//@ end
//@ fn ticc-syntax/src/pos.rs Span::end
//@ ret r
    ensures r == self.end,
//@ end
}
