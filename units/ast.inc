// The syntax tree as its accessors (compiler/syntax/node.rs) present it. Every node is a handle
// there; here the tree itself, with the accessors reading it.
pub struct Token { pub text: String, pub span: Span }
impl Token {
    fn text(&self) -> (r: &str) ensures r@ == self.text@ { self.text.as_str() }
    fn span(&self) -> (r: Span) ensures r == self.span { self.span }
}
#[derive(Clone, Copy)]
pub struct SyntaxNode { pub id: NodeId, pub span: Span }
impl SyntaxNode {
    fn id(&self) -> (r: NodeId) ensures r == self.id { self.id }
    fn span(&self) -> (r: Span) ensures r == self.span { self.span }
}
pub mod node { use super::*;
pub enum Item { Import(ImportItem), Value(ValueItem), Type(TypeItem) }
pub enum Field { Rec(RecField), Type(TypeField) }
pub enum Type { Int(IntType), Bool(BoolType), String(StringType), Fn(FnType), Named(NamedType), Paren(ParenType), Err(ErrType) }
pub enum Expr { Name(NameExpr), NamespacedName(NamespacedNameExpr), Apply(ApplyExpr), Binary(BinaryExpr), Let(LetExpr), Match(MatchExpr), If(IfExpr), Bool(BoolExpr), Number(NumberExpr), String(StringExpr), Lambda(LambdaExpr), Paren(ParenExpr), Hole(HoleExpr) }
pub struct Name { pub syntax: SyntaxNode, pub token: Token }
impl Name {
    pub(crate) fn syntax(&self) -> (r: &SyntaxNode) ensures *r == self.syntax { &self.syntax }
    pub(crate) fn token(&self) -> (r: &Token) ensures *r == self.token { &self.token }
}
pub struct ImportItem { pub syntax: SyntaxNode, pub name: Option<Name>, pub exposed_list: Option<ExposedList>, pub path: Option<Token> }
impl ImportItem {
    pub(crate) fn syntax(&self) -> (r: &SyntaxNode) ensures *r == self.syntax { &self.syntax }
    pub(crate) fn name(&self) -> (r: Option<&Name>) ensures r == (match self.name { Some(x) => Some(&x), None => None }) { match &self.name { Some(x) => Some(x), None => None } }
    pub(crate) fn exposed_list(&self) -> (r: Option<&ExposedList>) ensures r == (match self.exposed_list { Some(x) => Some(&x), None => None }) { match &self.exposed_list { Some(x) => Some(x), None => None } }
    pub(crate) fn path(&self) -> (r: Option<&Token>) ensures r == (match self.path { Some(x) => Some(&x), None => None }) { match &self.path { Some(x) => Some(x), None => None } }
}
pub struct ExposedList { pub syntax: SyntaxNode, pub imported_names: Vec<Name> }
impl ExposedList {
    pub(crate) fn syntax(&self) -> (r: &SyntaxNode) ensures *r == self.syntax { &self.syntax }
    pub(crate) fn imported_names(&self) -> (r: &Vec<Name>) ensures *r == self.imported_names { &self.imported_names }
}
pub struct TypeItem { pub syntax: SyntaxNode, pub export_token: Option<Token>, pub name: Option<Name>, pub params: Option<TypeParams>, pub export_cases_token: Option<Token>, pub cases: Vec<TypeCase> }
impl TypeItem {
    pub(crate) fn syntax(&self) -> (r: &SyntaxNode) ensures *r == self.syntax { &self.syntax }
    pub(crate) fn export_token(&self) -> (r: Option<&Token>) ensures r == (match self.export_token { Some(x) => Some(&x), None => None }) { match &self.export_token { Some(x) => Some(x), None => None } }
    pub(crate) fn name(&self) -> (r: Option<&Name>) ensures r == (match self.name { Some(x) => Some(&x), None => None }) { match &self.name { Some(x) => Some(x), None => None } }
    pub(crate) fn params(&self) -> (r: Option<&TypeParams>) ensures r == (match self.params { Some(x) => Some(&x), None => None }) { match &self.params { Some(x) => Some(x), None => None } }
    pub(crate) fn export_cases_token(&self) -> (r: Option<&Token>) ensures r == (match self.export_cases_token { Some(x) => Some(&x), None => None }) { match &self.export_cases_token { Some(x) => Some(x), None => None } }
    pub(crate) fn cases(&self) -> (r: &Vec<TypeCase>) ensures *r == self.cases { &self.cases }
}
pub struct TypeParams { pub syntax: SyntaxNode, pub params: Vec<Name> }
impl TypeParams {
    pub(crate) fn syntax(&self) -> (r: &SyntaxNode) ensures *r == self.syntax { &self.syntax }
    pub(crate) fn params(&self) -> (r: &Vec<Name>) ensures *r == self.params { &self.params }
}
pub struct TypeCase { pub syntax: SyntaxNode, pub name: Option<Name>, pub fields: Vec<Field> }
impl TypeCase {
    pub(crate) fn syntax(&self) -> (r: &SyntaxNode) ensures *r == self.syntax { &self.syntax }
    pub(crate) fn name(&self) -> (r: Option<&Name>) ensures r == (match self.name { Some(x) => Some(&x), None => None }) { match &self.name { Some(x) => Some(x), None => None } }
    pub(crate) fn fields(&self) -> (r: &Vec<Field>) ensures *r == self.fields { &self.fields }
}
pub struct RecField { pub syntax: SyntaxNode }
impl RecField {
    pub(crate) fn syntax(&self) -> (r: &SyntaxNode) ensures *r == self.syntax { &self.syntax }
}
pub struct TypeField { pub syntax: SyntaxNode, pub ty: Option<Box<Type>> }
impl TypeField {
    pub(crate) fn syntax(&self) -> (r: &SyntaxNode) ensures *r == self.syntax { &self.syntax }
    pub(crate) fn ty(&self) -> (r: Option<&Type>) ensures r == (match self.ty { Some(x) => Some(&*x), None => None }) { match &self.ty { Some(x) => Some(&**x), None => None } }
}
pub struct IntType { pub syntax: SyntaxNode }
impl IntType {
    pub(crate) fn syntax(&self) -> (r: &SyntaxNode) ensures *r == self.syntax { &self.syntax }
}
pub struct BoolType { pub syntax: SyntaxNode }
impl BoolType {
    pub(crate) fn syntax(&self) -> (r: &SyntaxNode) ensures *r == self.syntax { &self.syntax }
}
pub struct StringType { pub syntax: SyntaxNode }
impl StringType {
    pub(crate) fn syntax(&self) -> (r: &SyntaxNode) ensures *r == self.syntax { &self.syntax }
}
pub struct ErrType { pub syntax: SyntaxNode }
impl ErrType {
    pub(crate) fn syntax(&self) -> (r: &SyntaxNode) ensures *r == self.syntax { &self.syntax }
}
pub struct FnType { pub syntax: SyntaxNode, pub from: Option<Box<Type>>, pub to: Option<Box<Type>> }
impl FnType {
    pub(crate) fn syntax(&self) -> (r: &SyntaxNode) ensures *r == self.syntax { &self.syntax }
    pub(crate) fn from(&self) -> (r: Option<&Type>) ensures r == (match self.from { Some(x) => Some(&*x), None => None }) { match &self.from { Some(x) => Some(&**x), None => None } }
    pub(crate) fn to(&self) -> (r: Option<&Type>) ensures r == (match self.to { Some(x) => Some(&*x), None => None }) { match &self.to { Some(x) => Some(&**x), None => None } }
}
pub struct NamedType { pub syntax: SyntaxNode, pub namespace: Option<Name>, pub name: Option<Name>, pub type_args: Vec<Type> }
impl NamedType {
    pub(crate) fn syntax(&self) -> (r: &SyntaxNode) ensures *r == self.syntax { &self.syntax }
    pub(crate) fn namespace(&self) -> (r: Option<&Name>) ensures r == (match self.namespace { Some(x) => Some(&x), None => None }) { match &self.namespace { Some(x) => Some(x), None => None } }
    pub(crate) fn name(&self) -> (r: Option<&Name>) ensures r == (match self.name { Some(x) => Some(&x), None => None }) { match &self.name { Some(x) => Some(x), None => None } }
    pub(crate) fn type_args(&self) -> (r: &Vec<Type>) ensures *r == self.type_args { &self.type_args }
}
pub struct ParenType { pub syntax: SyntaxNode, pub inner: Option<Box<Type>> }
impl ParenType {
    pub(crate) fn syntax(&self) -> (r: &SyntaxNode) ensures *r == self.syntax { &self.syntax }
    pub(crate) fn inner(&self) -> (r: Option<&Type>) ensures r == (match self.inner { Some(x) => Some(&*x), None => None }) { match &self.inner { Some(x) => Some(&**x), None => None } }
}
pub struct ValueItem { pub syntax: SyntaxNode, pub export_token: Option<Token>, pub name: Option<Name>, pub type_: Option<Box<Type>>, pub expr: Option<Box<Expr>> }
impl ValueItem {
    pub(crate) fn syntax(&self) -> (r: &SyntaxNode) ensures *r == self.syntax { &self.syntax }
    pub(crate) fn export_token(&self) -> (r: Option<&Token>) ensures r == (match self.export_token { Some(x) => Some(&x), None => None }) { match &self.export_token { Some(x) => Some(x), None => None } }
    pub(crate) fn name(&self) -> (r: Option<&Name>) ensures r == (match self.name { Some(x) => Some(&x), None => None }) { match &self.name { Some(x) => Some(x), None => None } }
    pub(crate) fn type_(&self) -> (r: Option<&Type>) ensures r == (match self.type_ { Some(x) => Some(&*x), None => None }) { match &self.type_ { Some(x) => Some(&**x), None => None } }
    pub(crate) fn expr(&self) -> (r: Option<&Expr>) ensures r == (match self.expr { Some(x) => Some(&*x), None => None }) { match &self.expr { Some(x) => Some(&**x), None => None } }
}
pub struct NameExpr { pub syntax: SyntaxNode, pub name: Option<Name> }
impl NameExpr {
    pub(crate) fn syntax(&self) -> (r: &SyntaxNode) ensures *r == self.syntax { &self.syntax }
    pub(crate) fn name(&self) -> (r: Option<&Name>) ensures r == (match self.name { Some(x) => Some(&x), None => None }) { match &self.name { Some(x) => Some(x), None => None } }
}
pub struct NamespacedNameExpr { pub syntax: SyntaxNode, pub namespace: Option<Name>, pub name: Option<Name> }
impl NamespacedNameExpr {
    pub(crate) fn syntax(&self) -> (r: &SyntaxNode) ensures *r == self.syntax { &self.syntax }
    pub(crate) fn namespace(&self) -> (r: Option<&Name>) ensures r == (match self.namespace { Some(x) => Some(&x), None => None }) { match &self.namespace { Some(x) => Some(x), None => None } }
    pub(crate) fn name(&self) -> (r: Option<&Name>) ensures r == (match self.name { Some(x) => Some(&x), None => None }) { match &self.name { Some(x) => Some(x), None => None } }
}
pub struct ApplyExpr { pub syntax: SyntaxNode, pub function: Option<Box<Expr>>, pub arg: Option<Box<Expr>> }
impl ApplyExpr {
    pub(crate) fn syntax(&self) -> (r: &SyntaxNode) ensures *r == self.syntax { &self.syntax }
    pub(crate) fn function(&self) -> (r: Option<&Expr>) ensures r == (match self.function { Some(x) => Some(&*x), None => None }) { match &self.function { Some(x) => Some(&**x), None => None } }
    pub(crate) fn arg(&self) -> (r: Option<&Expr>) ensures r == (match self.arg { Some(x) => Some(&*x), None => None }) { match &self.arg { Some(x) => Some(&**x), None => None } }
}
pub struct BinaryExpr { pub syntax: SyntaxNode, pub lhs: Option<Box<Expr>>, pub rhs: Option<Box<Expr>> }
impl BinaryExpr {
    pub(crate) fn syntax(&self) -> (r: &SyntaxNode) ensures *r == self.syntax { &self.syntax }
    pub(crate) fn lhs(&self) -> (r: Option<&Expr>) ensures r == (match self.lhs { Some(x) => Some(&*x), None => None }) { match &self.lhs { Some(x) => Some(&**x), None => None } }
    pub(crate) fn rhs(&self) -> (r: Option<&Expr>) ensures r == (match self.rhs { Some(x) => Some(&*x), None => None }) { match &self.rhs { Some(x) => Some(&**x), None => None } }
}
pub struct LetExpr { pub syntax: SyntaxNode, pub name: Option<Name>, pub type_: Option<Box<Type>>, pub value: Option<Box<Expr>>, pub rest: Option<Box<Expr>> }
impl LetExpr {
    pub(crate) fn syntax(&self) -> (r: &SyntaxNode) ensures *r == self.syntax { &self.syntax }
    pub(crate) fn name(&self) -> (r: Option<&Name>) ensures r == (match self.name { Some(x) => Some(&x), None => None }) { match &self.name { Some(x) => Some(x), None => None } }
    pub(crate) fn type_(&self) -> (r: Option<&Type>) ensures r == (match self.type_ { Some(x) => Some(&*x), None => None }) { match &self.type_ { Some(x) => Some(&**x), None => None } }
    pub(crate) fn value(&self) -> (r: Option<&Expr>) ensures r == (match self.value { Some(x) => Some(&*x), None => None }) { match &self.value { Some(x) => Some(&**x), None => None } }
    pub(crate) fn rest(&self) -> (r: Option<&Expr>) ensures r == (match self.rest { Some(x) => Some(&*x), None => None }) { match &self.rest { Some(x) => Some(&**x), None => None } }
}
pub struct MatchExpr { pub syntax: SyntaxNode, pub discr: Option<Box<Expr>>, pub cases: Vec<MatchCase> }
impl MatchExpr {
    pub(crate) fn syntax(&self) -> (r: &SyntaxNode) ensures *r == self.syntax { &self.syntax }
    pub(crate) fn discr(&self) -> (r: Option<&Expr>) ensures r == (match self.discr { Some(x) => Some(&*x), None => None }) { match &self.discr { Some(x) => Some(&**x), None => None } }
    pub(crate) fn cases(&self) -> (r: &Vec<MatchCase>) ensures *r == self.cases { &self.cases }
}
pub struct IfExpr { pub syntax: SyntaxNode, pub cond: Option<Box<Expr>>, pub then_value: Option<Box<Expr>>, pub else_value: Option<Box<Expr>> }
impl IfExpr {
    pub(crate) fn syntax(&self) -> (r: &SyntaxNode) ensures *r == self.syntax { &self.syntax }
    pub(crate) fn cond(&self) -> (r: Option<&Expr>) ensures r == (match self.cond { Some(x) => Some(&*x), None => None }) { match &self.cond { Some(x) => Some(&**x), None => None } }
    pub(crate) fn then_value(&self) -> (r: Option<&Expr>) ensures r == (match self.then_value { Some(x) => Some(&*x), None => None }) { match &self.then_value { Some(x) => Some(&**x), None => None } }
    pub(crate) fn else_value(&self) -> (r: Option<&Expr>) ensures r == (match self.else_value { Some(x) => Some(&*x), None => None }) { match &self.else_value { Some(x) => Some(&**x), None => None } }
}
pub struct BoolExpr { pub syntax: SyntaxNode }
impl BoolExpr {
    pub(crate) fn syntax(&self) -> (r: &SyntaxNode) ensures *r == self.syntax { &self.syntax }
}
pub struct NumberExpr { pub syntax: SyntaxNode }
impl NumberExpr {
    pub(crate) fn syntax(&self) -> (r: &SyntaxNode) ensures *r == self.syntax { &self.syntax }
}
pub struct StringExpr { pub syntax: SyntaxNode }
impl StringExpr {
    pub(crate) fn syntax(&self) -> (r: &SyntaxNode) ensures *r == self.syntax { &self.syntax }
}
pub struct HoleExpr { pub syntax: SyntaxNode }
impl HoleExpr {
    pub(crate) fn syntax(&self) -> (r: &SyntaxNode) ensures *r == self.syntax { &self.syntax }
}
pub struct LambdaExpr { pub syntax: SyntaxNode, pub param: Option<Name>, pub body: Option<Box<Expr>> }
impl LambdaExpr {
    pub(crate) fn syntax(&self) -> (r: &SyntaxNode) ensures *r == self.syntax { &self.syntax }
    pub(crate) fn param(&self) -> (r: Option<&Name>) ensures r == (match self.param { Some(x) => Some(&x), None => None }) { match &self.param { Some(x) => Some(x), None => None } }
    pub(crate) fn body(&self) -> (r: Option<&Expr>) ensures r == (match self.body { Some(x) => Some(&*x), None => None }) { match &self.body { Some(x) => Some(&**x), None => None } }
}
pub struct ParenExpr { pub syntax: SyntaxNode, pub inner: Option<Box<Expr>> }
impl ParenExpr {
    pub(crate) fn syntax(&self) -> (r: &SyntaxNode) ensures *r == self.syntax { &self.syntax }
    pub(crate) fn inner(&self) -> (r: Option<&Expr>) ensures r == (match self.inner { Some(x) => Some(&*x), None => None }) { match &self.inner { Some(x) => Some(&**x), None => None } }
}
pub struct MatchCase { pub syntax: SyntaxNode, pub namespace: Option<Name>, pub ctor: Option<Name>, pub vars: Option<MatchVars>, pub body: Option<Box<Expr>> }
impl MatchCase {
    pub(crate) fn syntax(&self) -> (r: &SyntaxNode) ensures *r == self.syntax { &self.syntax }
    pub(crate) fn namespace(&self) -> (r: Option<&Name>) ensures r == (match self.namespace { Some(x) => Some(&x), None => None }) { match &self.namespace { Some(x) => Some(x), None => None } }
    pub(crate) fn ctor(&self) -> (r: Option<&Name>) ensures r == (match self.ctor { Some(x) => Some(&x), None => None }) { match &self.ctor { Some(x) => Some(x), None => None } }
    pub(crate) fn vars(&self) -> (r: Option<&MatchVars>) ensures r == (match self.vars { Some(x) => Some(&x), None => None }) { match &self.vars { Some(x) => Some(x), None => None } }
    pub(crate) fn body(&self) -> (r: Option<&Expr>) ensures r == (match self.body { Some(x) => Some(&*x), None => None }) { match &self.body { Some(x) => Some(&**x), None => None } }
}
pub struct MatchVars { pub syntax: SyntaxNode, pub vars: Vec<Name> }
impl MatchVars {
    pub(crate) fn syntax(&self) -> (r: &SyntaxNode) ensures *r == self.syntax { &self.syntax }
    pub(crate) fn vars(&self) -> (r: &Vec<Name>) ensures *r == self.vars { &self.vars }
}
} // mod node
