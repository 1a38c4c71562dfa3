// Unit `output`: what running a program prints (C01, C02): the exported definitions in order, each
// with the text of its value.
use vstd::prelude::*;
use std::rc::Rc;
verus! {
global size_of usize == 8;

//@ rule ir :: $x:ident ==> $x
//@ rule ticc_eval :: Trap ==> EvalTrap
//@ rule NameGenerator < '_ > ==> NameGenerator
//@ rule # [ derive ( Clone ) ] ==>
//@ type ticc-core/src/ir.rs Expr
//@ type ticc-core/src/ir.rs LambdaParam
//@ type ticc-core/src/ir.rs Branch
//@ type ticc-core/src/ir.rs Op | #[derive(Clone, Copy)]
//@ type ticc-core/src/ir.rs Intrinsic | #[derive(Clone, Copy)]
//@ type ticc-core/src/ir.rs Ty
//@ type ticc-core/src/ir.rs TyVar | #[derive(Clone, Copy)]
//@ type ticc-core/src/ir.rs Name | #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ type ticc-core/src/ir.rs ValueDef
//@ type ticc-eval/src/lib.rs Value
//@ type ticc/src/lib.rs Runner
//@ type ticc/src/lib.rs InterpretError
//@ type ticc/src/lib.rs Trap
/// `ticc_eval::Trap`
pub struct EvalTrap { pub message: String }
/// `ir::ByteString`: its bytes
pub struct ByteString { pub bytes: Vec<u8> }
/// `ir::NameGenerator`: the name of each id
pub struct NameGenerator { pub names: Vec<&'static str> }
/// `ir::Program`; what printing needs of it
pub struct Program { pub names: NameGenerator, pub defs: Vec<ValueDef> }

// ---- constructed values
//@ rule Rc < [ Value < F > ] > ==> Vec < Value < F > >
//@ type ticc-eval/src/tagged.rs Tagged
#[verifier::external_body]
fn vx_rc_array<T, const N: usize>(a: [T; N]) -> (r: Vec<T>) ensures r@ == a@ { unimplemented!() }
impl<F> Tagged<F> {
//@ fn ticc-eval/src/tagged.rs Tagged::from_array
//@ ret r
//@ rule Rc :: new ( arr ) ==> vx_rc_array ( arr )
    ensures r.tag == tag, r.values@ == arr@,
//@ end
//@ fn ticc-eval/src/tagged.rs Tagged::from_vec
//@ ret r
//@ rule values . into ( ) ==> values
    ensures r.tag == tag, r.values@ == values@,
//@ end
//@ fn ticc-eval/src/tagged.rs Tagged::tag
//@ ret r
    ensures r == self.tag,
//@ end
//@ fn ticc-eval/src/tagged.rs Tagged::fields
//@ ret r
//@ rule & [ Value < F > ] ==> & Vec < Value < F > >
    ensures *r == self.values,
//@ end
}

// ---- text of bytes
/// `fmt::Formatter`: the text written so far
#[verifier::external_body]
pub struct Formatter { s: String }
impl Formatter {
    uninterp spec fn view(&self) -> Seq<char>;
    /// `write_str`; the writer may refuse
    #[verifier::external_body]
    fn write_str(&mut self, s: &str) -> (r: Result<(), FmtError>) ensures r is Ok ==> final(self)@ == old(self)@ + s@ { unimplemented!() }
}
pub struct FmtError { e: u8 }
spec fn hex(n: u8) -> char { if n < 10 { (48 + n) as char } else { (87 + n) as char } }
spec fn byte_text(b: u8) -> Seq<char> {
    if b == 34 { seq!['\\', '"'] } else if b == 92 { seq!['\\', '\\'] } else if 32 <= b <= 126 { seq![b as char] }
    else if b == 13 { seq!['\\', 'r'] } else if b == 10 { seq!['\\', 'n'] }
    else { seq!['\\', 'x', hex(b / 16), hex(b % 16)] }
}
spec fn bytes_text(bs: Seq<u8>, n: nat) -> Seq<char> decreases n { if n == 0 { Seq::empty() } else { bytes_text(bs, (n - 1) as nat) + byte_text(bs[n - 1]) } }
/// the literal that stands for the bytes
spec fn quoted(bs: Seq<u8>) -> Seq<char> { seq!['"'] + bytes_text(bs, bs.len()) + seq!['"'] }
/// `std::str::from_utf8(&buf[..n]).unwrap()` of ASCII
#[verifier::external_body]
fn vx_ascii(buf: &[u8; 4], n: usize) -> (r: &str)
    requires n <= 4, forall|i: int| 0 <= i < n ==> (#[trigger] buf@[i]) < 128,
    ensures r@ == Seq::new(n as nat, |i: int| buf@[i] as char) { unimplemented!() }
//@ fn ticc-core/src/ir.rs Debug/ByteString::fmt.hex_digit
//@ ret r
    ensures nibble < 16 ==> r < 128 && r as char == hex(nibble),
//@ end
impl ByteString {
//@ fn ticc-core/src/ir.rs Debug/ByteString::fmt
//@ ret r
//@ rule & mut fmt :: Formatter < '_ > ==> & mut Formatter
//@ rule fmt :: Result ==> Result < ( ) , FmtError >
//@ rule f . write_str ( $x:rest ) ? ; ==> { let vx_w = f . write_str ( $x ) ; if vx_w . is_err ( ) { return vx_w ; } }
//@ rule std :: str :: from_utf8 ( & buf [ .. 1 ] ) . unwrap ( ) ==> vx_ascii ( & buf , 1 )
//@ rule std :: str :: from_utf8 ( & buf ) . unwrap ( ) ==> vx_ascii ( & buf , 4 )
    ensures r is Ok ==> final(f)@ == old(f)@ + quoted(self.bytes@),
//@ head
    proof { reveal_strlit("\""); }
//@ loop 0
    invariant vx_it0.seq() == self.bytes@.map_values(|b: u8| &b),
        f@ =~= old(f)@ + seq!['"'] + bytes_text(self.bytes@, vx_it0.index@ as nat),
//@ before let mut buf
    proof { reveal_strlit("\\\""); reveal_strlit("\\\\"); reveal_strlit("\\r"); reveal_strlit("\\n"); assert(b == self.bytes@[vx_it0.index@]); assert(b >> 4 == b / 16 && b & 0xF == b % 16 && b / 16 < 16 && b % 16 < 16) by(bit_vector); }
//@ before f . write_str ( s )
    proof { assert(s@ =~= byte_text(b)); }
//@ end
}

// ---- text of values
/// how a value is written; as an argument of a constructor it stands in parentheses when it needs them
spec fn shown<F>(v: Value<F>, atom: bool, names: Seq<Seq<char>>) -> Seq<char> decreases v, 1nat, 0nat {
    match v {
        Value::Int(i) => decimal(i),
        Value::Bool(b) => if b { "true"@ } else { "false"@ },
        Value::String(s) => quoted(s.bytes@),
        Value::Composite(t) => {
            let s = names[t.tag.id as int] + shown_fields(t.values, t.values@.len(), names);
            if atom && t.values@.len() > 0 { seq!['('] + s + seq![')'] } else { s }
        }
        Value::Fn(_) => if atom { "(\\_ -> _)"@ } else { "\\_ -> _"@ },
    }
}
spec fn shown_fields<F>(vs: Vec<Value<F>>, n: nat, names: Seq<Seq<char>>) -> Seq<char> decreases vs, 0nat, n {
    if n == 0 || n > vs@.len() { Seq::empty() } else { shown_fields(vs, (n - 1) as nat, names) + seq![' '] + shown(vs@[n - 1], true, names) }
}
spec fn texts(g: NameGenerator) -> Seq<Seq<char>> { g.names@.map_values(|s: &'static str| s@) }
/// every constructor that stands in the value has a name
spec fn named<F>(v: Value<F>, n: nat) -> bool decreases v {
    match v { Value::Composite(t) => t.tag.id < n && forall|k: int| 0 <= k < t.values@.len() ==> named(#[trigger] t.values@[k], n), _ => true }
}
pub uninterp spec fn decimal(x: u64) -> Seq<char>;
/// `write!(into, "{}", i).unwrap()`
#[verifier::external_body]
fn vx_put_int(into: &mut String, i: &u64) ensures final(into)@ == old(into)@ + decimal(*i) { unimplemented!() }
#[verifier::external_body]
fn vx_put_bool(into: &mut String, b: &bool) ensures final(into)@ == old(into)@ + (if *b { "true"@ } else { "false"@ }) { unimplemented!() }
/// `write!(into, "{:?}", s).unwrap()`: what `fmt` above writes
#[verifier::external_body]
fn vx_put_bytes(into: &mut String, s: &ByteString) ensures final(into)@ == old(into)@ + quoted(s.bytes@) { unimplemented!() }
#[verifier::external_body]
fn vx_push(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { unimplemented!() }
#[verifier::external_body]
fn vx_push_str(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { unimplemented!() }
//@ rule into . push ( $x:rest ) ==> vx_push ( into , $x )
//@ rule into . push_str ( $x:rest ) ==> vx_push_str ( into , $x )
impl NameGenerator {
//@ fn ticc-core/src/ir.rs NameGenerator::original_name
//@ ret r
//@ rule & 'a str ==> & 'static str
    requires name.id < self.names@.len(),
    ensures r@ == texts(*self)[name.id as int],
//@ end
}
//@ fn ticc/src/interpreter.rs write_value
//@ rule write ! ( into , "{}" , i ) . unwrap ( ) ==> vx_put_int ( into , i )
//@ rule write ! ( into , "{}" , b ) . unwrap ( ) ==> vx_put_bool ( into , b )
//@ rule write ! ( into , "{:?}" , s ) . unwrap ( ) ==> vx_put_bytes ( into , s )
    requires named(*value, names.names@.len()),
    ensures final(into)@ =~= old(into)@ + shown(*value, atom, texts(*names)),
    decreases *value,
//@ head
    let ghost names0 = texts(*names);
//@ loop 0
    invariant vx_it0.seq() == tagged.values@.map_values(|v: Value<F>| &v), *value == Value::<F>::Composite(*tagged), names0 == texts(*names), named(*value, names.names@.len()),
        into@ =~= old(into)@ + (if atom && tagged.values@.len() > 0 { seq!['('] } else { Seq::<char>::empty() }) + names0[tagged.tag.id as int] + shown_fields(tagged.values, vx_it0.index@ as nat, names0),
//@ loophead 0
    proof { assert(*field == tagged.values@[vx_it0.index@]); let v = tagged.values; assert(decreases_to!(v => v@[vx_it0.index@])); assert(decreases_to!(*value => v)); }
//@ end

// ---- running
pub struct Options { pub verify: bool, pub optimize: bool }
pub struct CompilationUnit { pub options: Options, u: u8 }
/// the core program that `codegen::emit_core` makes of the unit
pub uninterp spec fn emitted(u: CompilationUnit) -> Program;
#[verifier::external_body]
fn emit_core(u: &mut CompilationUnit) -> (r: Program) ensures r == emitted(*old(u)) { unimplemented!() }


/// the exported definitions among the first n
spec fn exported(ds: Seq<ValueDef>, n: nat) -> Seq<ValueDef> decreases n {
    if n == 0 || n > ds.len() { Seq::empty() } else { let r = exported(ds, (n - 1) as nat); if ds[n - 1].export_name is Some { r.push(ds[n - 1]) } else { r } }
}
spec fn name_expr(d: ValueDef) -> Expr { Expr::Name(d.name) }
spec fn names_def(s: &String, d: ValueDef) -> bool { d.export_name == Some(*s) }
/// the values asked of a runner: those of the exported definitions, in order
spec fn asked(p: Program) -> Seq<Expr> { exported(p.defs@, p.defs@.len()).map_values(|d: ValueDef| name_expr(d)) }
/// one line for each value: `name = value`
spec fn lines<F>(ds: Seq<ValueDef>, vs: Seq<Value<F>>, names: Seq<Seq<char>>, n: nat) -> Seq<char> decreases n {
    if n == 0 || n > ds.len() || n > vs.len() { Seq::empty() } else {
        lines(ds, vs, names, (n - 1) as nat) + ds[n - 1].export_name->0@ + " = "@ + shown(vs[n - 1], false, names) + seq!['\n']
    }
}
/// what is printed when the runner answered v
spec fn printed<F>(p: Program, v: Result<Vec<Value<F>>, EvalTrap>, r: Result<String, Trap>) -> bool {
    match (v, r) {
        (Ok(vs), Ok(t)) => { let ds = exported(p.defs@, p.defs@.len()); vs@.len() == ds.len() && t@ =~= lines(ds, vs@, texts(p.names), ds.len()) }
        (Err(m), Err(t)) => m.message@ == t.message@,
        _ => false,
    }
}
spec fn right<F, R: Fn(&Program, &Vec<Expr>) -> Result<Vec<Value<F>>, EvalTrap>>(run: R) -> bool {
    &&& forall|p: &Program, es: &Vec<Expr>| #[trigger] run.requires((p, es))
    &&& forall|p: &Program, es: &Vec<Expr>, vs: Vec<Value<F>>| #[trigger] run.ensures((p, es), Ok(vs)) ==> vs@.len() == es@.len() && forall|k: int| 0 <= k < vs@.len() ==> named(#[trigger] vs@[k], p.names.names@.len())
}
/// `std::iter::zip`
#[verifier::external_body]
fn vx_zip<A, B>(a: Vec<A>, b: Vec<B>) -> (r: Vec<(A, B)>)
    ensures r@.len() == if a@.len() < b@.len() { a@.len() } else { b@.len() }, forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (a@[i], b@[i]) { unimplemented!() }
//@ rule crate :: codegen :: emit_core ==> emit_core
//@ fn ticc/src/interpreter.rs do_eval
//@ params fn do_eval<F, R: Fn(&Program, &Vec<Expr>) -> Result<Vec<Value<F>>, EvalTrap>>(compilation: &mut CompilationUnit, runner: R) -> (res: Result<String, Trap>)
//@ rule std :: iter :: zip ( export_names , values ) ==> vx_zip ( export_names , values )
//@ rule output . push_str ( n ) ==> vx_push_str ( & mut output , n . as_str ( ) )
//@ rule output . push_str ( " = " ) ==> vx_push_str ( & mut output , " = " )
//@ rule output . push ( '\n' ) ==> vx_push ( & mut output , '\n' )
    requires right(runner),
    ensures exists|es: &Vec<Expr>, v: Result<Vec<Value<F>>, EvalTrap>| es@ =~= asked(emitted(*old(compilation))) && #[trigger] runner.ensures((&emitted(*old(compilation)), es), v) && printed(emitted(*old(compilation)), v, res),
//@ loop 0
    invariant vx_it0.seq() == program.defs@.map_values(|d: ValueDef| &d),
        export_names@.len() == expor_exprs@.len() == exported(program.defs@, vx_it0.index@ as nat).len(),
        forall|k: int| 0 <= k < export_names@.len() ==> names_def(#[trigger] export_names@[k], exported(program.defs@, vx_it0.index@ as nat)[k]),
        forall|k: int| 0 <= k < expor_exprs@.len() ==> #[trigger] expor_exprs@[k] == name_expr(exported(program.defs@, vx_it0.index@ as nat)[k]),
//@ loophead 0
    proof { assert(*v == program.defs@[vx_it0.index@]); }
//@ before match runner
    let ghost ds = exported(program.defs@, program.defs@.len());
    proof { assert(expor_exprs@ =~= asked(program)); }
//@ before for ( n , v ) in
    let ghost vs = values@;
    let ghost g = texts(program.names);
    let ghost ns = export_names@;
//@ loop 1
    invariant vs.len() == ds.len() == ns.len(), vx_it1.seq().len() == vs.len(), forall|k: int| 0 <= k < vs.len() ==> #[trigger] vx_it1.seq()[k] == (ns[k], vs[k]),
        forall|k: int| 0 <= k < ns.len() ==> names_def(#[trigger] ns[k], ds[k]), g == texts(program.names),
        forall|k: int| 0 <= k < vs.len() ==> named(#[trigger] vs[k], program.names.names@.len()),
        output@ =~= lines(ds, vs, g, vx_it1.index@ as nat),
//@ loophead 1
    proof { assert(vx_it1.seq()[vx_it1.index@] == (ns[vx_it1.index@], vs[vx_it1.index@])); }
//@ end

/// the definition is exported as `main`
spec fn is_main(d: ValueDef) -> bool { d.export_name is Some && d.export_name->0@ == "main"@ }
spec fn main_ty(t: Ty) -> bool { t matches Ty::Fn(a, b) && a@.len() == 1 && a@[0] == Ty::String && *b == Ty::String }
spec fn bad_main(ds: Seq<ValueDef>) -> bool { exists|k: int| 0 <= k < ds.len() && is_main(#[trigger] ds[k]) && !main_ty(ds[k].ty) }
spec fn first_main(ds: Seq<ValueDef>, k: int) -> bool { 0 <= k < ds.len() && is_main(ds[k]) && forall|j: int| 0 <= j < k ==> !is_main(#[trigger] ds[j]) }
/// the call `main "input"`
spec fn main_call(e: Expr, n: Name, input: Seq<u8>) -> bool {
    e matches Expr::Call(f, a) && *f == Expr::Name(n) && a@.len() == 1 && (a@[0] matches Expr::String(s) && s.bytes@ == input)
}
#[verifier::external_body]
fn vx_is(s: &Option<String>, t: &str) -> (r: bool) ensures r == (s is Some && s->0@ == t@) { unimplemented!() }
/// `v.iter().rev()`
#[verifier::external_body]
fn vx_rev<T>(v: &Vec<T>) -> (r: Vec<&T>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> *(#[trigger] r@[i]) == v@[v@.len() - 1 - i] { unimplemented!() }
#[verifier::external_body]
fn vx_bytes(s: &[u8]) -> (r: ByteString) ensures r.bytes@ == s@ { unimplemented!() }
#[verifier::external_body]
fn vx_own_bytes(s: &ByteString) -> (r: Vec<u8>) ensures r@ == s.bytes@ { unimplemented!() }
#[verifier::external_body]
fn vx_array<T, const N: usize>(a: [T; N]) -> (r: Vec<T>) ensures r@ == a@ { unimplemented!() }
fn vx_one_string(a: &Vec<Ty>) -> (r: bool) ensures r == (a@.len() == 1 && a@[0] == Ty::String) { if a.len() != 1 { return false; } match &a[0] { Ty::String => true, _ => false } }
/// `assert_valid_with_values` and `unreachable!()`: they stop the program
#[verifier::external_body]
fn vx_verify() { }
#[verifier::external_body]
fn vx_stop() -> ! { panic!() }
fn vx_assert(b: bool) requires b {}
/// what a run of `main` gives
spec fn main_printed<F>(v: Result<Vec<Value<F>>, EvalTrap>, r: Result<Vec<u8>, InterpretError>) -> bool {
    match (v, r) {
        (Ok(vs), Ok(t)) => vs@.len() == 1 && (vs@[0] matches Value::String(s) && s.bytes@ == t@),
        (Err(m), Err(InterpretError::Trap(t))) => m.message@ == t.message@,
        _ => false,
    }
}
spec fn main_ran<F, R: Fn(&Program, &Vec<Expr>) -> Result<Vec<Value<F>>, EvalTrap>>(run: R, p: Program, input: Seq<u8>, res: Result<Vec<u8>, InterpretError>) -> bool {
    if bad_main(p.defs@) { res == Err::<Vec<u8>, InterpretError>(InterpretError::InvalidMain) }
    else if forall|k: int| 0 <= k < p.defs@.len() ==> !is_main(#[trigger] p.defs@[k]) { res == Err::<Vec<u8>, InterpretError>(InterpretError::NoMain) }
    else { exists|k: int, es: &Vec<Expr>, v: Result<Vec<Value<F>>, EvalTrap>| #[trigger] first_main(p.defs@, k) && es@.len() == 1 && main_call(es@[0], p.defs@[k].name, input) && #[trigger] run.ensures((&p, es), v) && main_printed(v, res) }
}
//@ fn ticc/src/interpreter.rs do_eval_main
//@ params fn do_eval_main<F, R: Fn(&Program, &Vec<Expr>) -> Result<Vec<Value<F>>, EvalTrap>>(compilation: &mut CompilationUnit, runner: R, input: &[u8]) -> (res: Result<Vec<u8>, InterpretError>)
//@ rule program . defs . iter ( ) . rev ( ) ==> vx_rev ( & program . defs )
//@ rule v . export_name . as_deref ( ) == Some ( "main" ) ==> vx_is ( & v . export_name , "main" )
//@ rule ( a . as_slice ( ) , & * * b ) ==> ( vx_one_string ( a ) , & * * b )
//@ rule ( & [ ir :: Ty :: String ] , ir :: Ty :: String ) ==> ( true , Ty :: String )
//@ rule Vec :: from ( $x:rest ) ==> vx_array ( $x )
//@ rule input . into ( ) ==> vx_bytes ( input )
//@ rule ticc_core :: assert_valid_with_values ( $x:rest ) ==> vx_verify ( )
//@ rule & [ expr ] ==> & vx_array ( [ expr ] )
//@ rule assert_eq ! ( v . len ( ) , 1 ) ==> vx_assert ( v . len ( ) == 1 )
//@ rule x [ .. ] . to_owned ( ) ==> vx_own_bytes ( x )
//@ rule unreachable ! ( ) ==> vx_stop ( )
    requires right(runner),
    ensures main_ran(runner, emitted(*old(compilation)), input@, res),
//@ head
    proof { reveal_strlit("main"); }
//@ loop 0
    invariant vx_it0.seq().len() == program.defs@.len(), forall|i: int| 0 <= i < program.defs@.len() ==> *(#[trigger] vx_it0.seq()[i]) == program.defs@[program.defs@.len() - 1 - i],
        program == emitted(*old(compilation)),
        forall|i: int| program.defs@.len() - vx_it0.index@ <= i < program.defs@.len() && is_main(#[trigger] program.defs@[i]) ==> main is Some && main_ty(program.defs@[i].ty),
        main matches Some(n) ==> exists|i: int| program.defs@.len() - vx_it0.index@ <= i < program.defs@.len() && is_main(#[trigger] program.defs@[i]) && n == program.defs@[i].name && forall|j: int| program.defs@.len() - vx_it0.index@ <= j < i ==> !is_main(#[trigger] program.defs@[j]),
//@ loophead 0
    let ghost at = program.defs@.len() - 1 - vx_it0.index@;
    proof { assert(*vx_it0.seq()[vx_it0.index@] == program.defs@[at]); assert(*v == program.defs@[at]); }
//@ before let main = match
    proof { if main is Some { let i = choose|i: int| 0 <= i < program.defs@.len() && is_main(#[trigger] program.defs@[i]) && main->0 == program.defs@[i].name && forall|j: int| 0 <= j < i ==> !is_main(#[trigger] program.defs@[j]); assert(first_main(program.defs@, i)); } }
//@ before let expr =
    let ghost at = choose|k: int| #[trigger] first_main(program.defs@, k) && main == program.defs@[k].name;
//@ before match runner
    proof { assert(main_call(expr, program.defs@[at].name, input@)); }
//@ end

/// a run of the program on one of the runners. What each gives is the subject of the units `treewalk`
/// and `lambda`; the function values of the four are one type here
#[verifier::external_body]
pub struct Function { f: usize }
pub uninterp spec fn ran_by(r: Runner, p: Program, es: Seq<Expr>, v: Result<Vec<Value<Function>>, EvalTrap>) -> bool;
spec fn gives(r: Runner, p: &Program, es: &Vec<Expr>, v: Result<Vec<Value<Function>>, EvalTrap>) -> bool {
    ran_by(r, *p, es@, v) && (v matches Ok(vs) ==> vs@.len() == es@.len() && forall|k: int| 0 <= k < vs@.len() ==> named(#[trigger] vs@[k], p.names.names@.len()))
}
#[verifier::external_body]
fn run_lambda(p: &Program, es: &Vec<Expr>) -> (v: Result<Vec<Value<Function>>, EvalTrap>) ensures gives(Runner::Lambda, p, es, v) { unimplemented!() }
#[verifier::external_body]
fn run_bytecode(p: &Program, es: &Vec<Expr>) -> (v: Result<Vec<Value<Function>>, EvalTrap>) ensures gives(Runner::Bytecode, p, es, v) { unimplemented!() }
#[verifier::external_body]
fn run_treewalk(p: &Program, es: &Vec<Expr>) -> (v: Result<Vec<Value<Function>>, EvalTrap>) ensures gives(Runner::Treewalk, p, es, v) { unimplemented!() }
#[verifier::external_body]
fn run_jit(p: &Program, es: &Vec<Expr>) -> (v: Result<Vec<Value<Function>>, EvalTrap>) ensures gives(Runner::Jit, p, es, v) { unimplemented!() }
//@ rule ticc_eval :: lambda :: eval ==> run_lambda
//@ rule ticc_eval :: bytecode :: eval ==> run_bytecode
//@ rule ticc_eval :: treewalk :: eval ==> run_treewalk
//@ rule ticc_eval :: jit :: eval ==> run_jit
//@ fn ticc/src/interpreter.rs eval
//@ ret res
    ensures exists|es: &Vec<Expr>, v: Result<Vec<Value<Function>>, EvalTrap>| es@ =~= asked(emitted(*old(compilation))) && #[trigger] gives(runner, &emitted(*old(compilation)), es, v) && printed(emitted(*old(compilation)), v, res),
//@ end
spec fn main_ran_by(r: Runner, p: Program, input: Seq<u8>, res: Result<Vec<u8>, InterpretError>) -> bool {
    if bad_main(p.defs@) { res == Err::<Vec<u8>, InterpretError>(InterpretError::InvalidMain) }
    else if forall|k: int| 0 <= k < p.defs@.len() ==> !is_main(#[trigger] p.defs@[k]) { res == Err::<Vec<u8>, InterpretError>(InterpretError::NoMain) }
    else { exists|k: int, es: &Vec<Expr>, v: Result<Vec<Value<Function>>, EvalTrap>| #[trigger] first_main(p.defs@, k) && es@.len() == 1 && main_call(es@[0], p.defs@[k].name, input) && #[trigger] gives(r, &p, es, v) && main_printed(v, res) }
}
//@ fn ticc/src/interpreter.rs eval_main
//@ ret res
    ensures main_ran_by(runner, emitted(*old(compilation)), input@, res),
//@ end

} // verus!
fn main() {}
