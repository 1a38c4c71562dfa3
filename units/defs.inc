//@ rule ir :: $x:ident ==> $x
//@ rule pub ( crate ) ==> pub
//@ type ticc/src/compiler/ir.rs Symbol | #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ type ticc/src/compiler/ir.rs DefKind
//@ type ticc/src/compiler/ir.rs Ctors
//@ type ticc/src/compiler/ir.rs Field
//@ type ticc/src/compiler/ir.rs Type
//@ type ticc/src/compiler/ir.rs Visibility | #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ type ticc/src/compiler/ir.rs Ref | #[derive(Clone, Copy)]
//@ type ticc/src/compiler/ir.rs Def
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct NodeId { n: u32 }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct ModuleKey { k: u64 }
pub assume_specification<'a, T: Copy>[Option::<&'a T>::copied](o: Option<&'a T>) -> (r: Option<T>)
    ensures r == (match o { Some(t) => Some(*t), None => None });
