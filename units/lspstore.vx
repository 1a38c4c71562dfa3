// Unit `lspstore`: the language server's documents and compilations (C16). The shared maps behind
// `Arc<Mutex<..>>` are reached through one token `World`, so that every read and write of them is
// accounted for; the invariant says that nothing stale is ever taken for current.
use vstd::prelude::*;
verus! {
global size_of usize == 8;

// ---- opaque values
#[verifier::external_body]
struct Url { u: u8 }
struct FileKey(pub Url);
impl FileKey {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Url {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
/// `impl From<Url> for FileKey`
impl FileKey {
    fn from(url: Url) -> (r: FileKey) ensures r == FileKey(url) { FileKey(url) }
}
#[verifier::external_body]
struct Text { t: u8 }
impl Text { uninterp spec fn view(&self) -> Seq<char>; }
impl Text {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
}
#[derive(Clone, Copy)]
enum Kind { NotFound, Other(u8) }
enum ImportError { DoesNotExist, ImportCycle, Io(Kind) }
#[verifier::external_body]
fn vx_text(s: &str) -> (r: Text) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
fn vx_ok_or_default(c: Result<Text, Kind>) -> (r: Text)
    ensures r@ == (match c { Ok(t) => t@, Err(_) => Seq::empty() }) { unimplemented!() }

// ---- the shared maps
type Logical = Result<Seq<char>, Kind>;
//@ rule std :: io :: ErrorKind ==> Kind
//@ rule Arc < str > ==> Text
//@ rule Arc < Mutex < HashMap < FileKey , FileContent > > > ==> Files
//@ rule Arc < Mutex < HashMap < FileKey , Dependency > > > ==> Deps
//@ rule HashMap < FileKey , Compilation > ==> Comps
//@ rule read_file : ReadFile , ==>
//@ type ticc-lsp/src/main.rs FileContent
//@ type ticc-lsp/src/main.rs FileSet
//@ type ticc-lsp/src/main.rs Dependency
//@ type ticc-lsp/src/main.rs Compilation
//@ type ticc-lsp/src/main.rs CompilationModuleResolver
//@ type ticc-lsp/src/main.rs CompilationSet
//@ rule sender : Sender < Message > ==> sender : Sender
//@ type ticc-lsp/src/main.rs TicServer

impl FileContent {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.version == self.version, logical(r.content) == logical(self.content) { unimplemented!() }
}
/// `Arc<Mutex<HashMap<FileKey, FileContent>>>`: a reference to one of the shared maps
#[verifier::external_body]
struct Files { f: u8 }
#[verifier::external_body]
struct Deps { d: u8 }
impl Files {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.id() == self.id() { unimplemented!() }
}
impl Deps {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.id() == self.id() { unimplemented!() }
}
impl FileSet {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.files.id() == self.files.id() { unimplemented!() }
}
enum Msg { Diagnostics(FileKey, Seq<Diag>), Response(RequestId, Option<Value>, bool) }
#[verifier::external_body]
struct Diag { d: u8 }
#[verifier::external_body]
struct RequestId { d: u8 }
#[verifier::external_body]
struct Value { d: u8 }

type FileMap = Map<FileKey, FileContent>;
type DepMap = Map<FileKey, Dependency>;
/// everything shared: the maps behind the references, and what has been sent to the client
#[verifier::external_body]
tracked struct World { w: u8 }
impl World {
    uninterp spec fn files(&self) -> Map<int, FileMap>;
    uninterp spec fn deps(&self) -> Map<int, DepMap>;
    uninterp spec fn sent(&self) -> Seq<Msg>;
}
impl Files {
    uninterp spec fn id(&self) -> int;
    /// `lock().unwrap().get(k)`, cloned
    #[verifier::external_body]
    fn vx_get(&self, Tracked(w): Tracked<&mut World>, k: &FileKey) -> (r: Option<FileContent>)
        requires old(w).files().contains_key(self.id()),
        ensures *final(w) == *old(w),
            match r { Some(c) => old(w).files()[self.id()].contains_key(*k) && c == old(w).files()[self.id()][*k], None => !old(w).files()[self.id()].contains_key(*k) },
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_put(&self, Tracked(w): Tracked<&mut World>, k: FileKey, c: FileContent)
        requires old(w).files().contains_key(self.id()),
        ensures final(w).deps() == old(w).deps(), final(w).sent() == old(w).sent(),
            final(w).files() == old(w).files().insert(self.id(), old(w).files()[self.id()].insert(k, c)),
    { unimplemented!() }
}
impl Deps {
    uninterp spec fn id(&self) -> int;
    /// `Default::default()`: a map nothing else refers to
    #[verifier::external_body]
    fn vx_new(Tracked(w): Tracked<&mut World>) -> (r: Deps)
        ensures !old(w).deps().contains_key(r.id()), final(w).deps() == old(w).deps().insert(r.id(), Map::empty()),
            final(w).files() == old(w).files(), final(w).sent() == old(w).sent(),
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_get(&self, Tracked(w): Tracked<&mut World>, k: &FileKey) -> (r: Option<Dependency>)
        requires old(w).deps().contains_key(self.id()),
        ensures *final(w) == *old(w),
            match r { Some(c) => old(w).deps()[self.id()].contains_key(*k) && c == old(w).deps()[self.id()][*k], None => !old(w).deps()[self.id()].contains_key(*k) },
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_put(&self, Tracked(w): Tracked<&mut World>, k: FileKey, c: Dependency)
        requires old(w).deps().contains_key(self.id()),
        ensures final(w).files() == old(w).files(), final(w).sent() == old(w).sent(),
            final(w).deps() == old(w).deps().insert(self.id(), old(w).deps()[self.id()].insert(k, c)),
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_clear(&self, Tracked(w): Tracked<&mut World>)
        requires old(w).deps().contains_key(self.id()),
        ensures final(w).files() == old(w).files(), final(w).sent() == old(w).sent(),
            final(w).deps() == old(w).deps().insert(self.id(), Map::empty()),
    { unimplemented!() }
    /// the entries, in the order of the map's iterator
    #[verifier::external_body]
    fn vx_entries(&self, Tracked(w): Tracked<&mut World>) -> (r: Vec<(FileKey, Dependency)>)
        requires old(w).deps().contains_key(self.id()),
        ensures *final(w) == *old(w),
            forall|i: int| 0 <= i < r@.len() ==> { let e = #[trigger] r@[i]; old(w).deps()[self.id()].contains_key(e.0) && old(w).deps()[self.id()][e.0] == e.1 },
            forall|k: FileKey| #[trigger] old(w).deps()[self.id()].contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0 == k,
    { unimplemented!() }
}
/// what is on disk; it does not change while the server runs
uninterp spec fn disk(k: FileKey) -> Logical;
spec fn logical(c: Result<Text, Kind>) -> Logical { match c { Ok(t) => Ok(t@), Err(e) => Err(e) } }
/// `Url::join`
uninterp spec fn joined(base: FileKey, name: Seq<char>) -> Option<FileKey>;

// ---- what the shared map says about a document
spec fn text(w: World, id: int, k: FileKey) -> Logical {
    if w.files()[id].contains_key(k) { logical(w.files()[id][k].content) } else { disk(k) }
}
spec fn ver(w: World, id: int, k: FileKey) -> int {
    if w.files()[id].contains_key(k) { w.files()[id][k].version as int } else { 1 }
}
/// nothing a reader can tell apart has happened to the documents
spec fn same_docs(w0: World, w1: World, id: int) -> bool {
    &&& w1.files().contains_key(id)
    &&& forall|k: FileKey| #![trigger text(w1, id, k)] #![trigger ver(w1, id, k)] text(w1, id, k) == text(w0, id, k) && ver(w1, id, k) == ver(w0, id, k)
    &&& forall|k: FileKey| #![trigger known(w1, id, k)] known(w0, id, k) ==> known(w1, id, k)
}
/// every document known so far either is the same or has a later version
spec fn docs_later(w0: World, w1: World, id: int) -> bool {
    &&& w1.files().contains_key(id)
    &&& forall|k: FileKey| #![trigger known(w1, id, k)] #![trigger text(w1, id, k)] #![trigger ver(w1, id, k)] known(w0, id, k) ==> known(w1, id, k)
        && (ver(w1, id, k) > ver(w0, id, k) || (text(w1, id, k) == text(w0, id, k) && ver(w1, id, k) == ver(w0, id, k)))
}
spec fn known(w: World, id: int, k: FileKey) -> bool { w.files()[id].contains_key(k) }
/// versions have not run out (there are 2^64)
spec fn room(w: World, id: int) -> bool { forall|k: FileKey| #[trigger] ver(w, id, k) < u64::MAX }

impl FileSet {
    /// read from disk; the body only converts the name
    #[verifier::external_body]
    fn read_file(&self, k: &FileKey) -> (r: Result<Text, Kind>) ensures logical(r) == disk(*k) { unimplemented!() }
//@ fn ticc-lsp/src/main.rs FileSet::set
//@ rule ( & self , key : FileKey , new_content : & str ) ==> ( & self , Tracked ( w ) : Tracked < & mut World > , key : FileKey , new_content : & str )
//@ rule self . files . lock ( ) . unwrap ( ) . entry ( key . clone ( ) ) . and_modify ( | c | $b ) . or_insert_with ( | | $d ) ==> match self . files . vx_get ( Tracked ( w ) , & key ) { Some ( vx_c0 ) => { let mut vx_c = vx_c0 ; { let c = & mut vx_c ; $b ; } self . files . vx_put ( Tracked ( w ) , key . clone ( ) , vx_c ) } None => { let vx_d = $d ; self . files . vx_put ( Tracked ( w ) , key . clone ( ) , vx_d ) } }
//@ rule new_content . into ( ) ==> vx_text ( new_content )
    requires old(w).files().contains_key(self.files.id()), room(*old(w), self.files.id()),
    ensures
        final(w).deps() == old(w).deps(), final(w).sent() == old(w).sent(),
        docs_later(*old(w), *final(w), self.files.id()),
        text(*final(w), self.files.id(), key) == Logical::Ok(new_content@),
        known(*final(w), self.files.id(), key), ver(*final(w), self.files.id(), key) > 0,
        known(*old(w), self.files.id(), key) ==> ver(*final(w), self.files.id(), key) > ver(*old(w), self.files.id(), key),
//@ head
    proof { assert(ver(*w, self.files.id(), key) < u64::MAX); }
//@ end
//@ fn ticc-lsp/src/main.rs FileSet::reload
//@ rule ( & self , key : & FileKey ) ==> ( & self , Tracked ( w ) : Tracked < & mut World > , key : & FileKey )
//@ rule self . read_file ( key ) . map ( Into :: into ) . map_err ( | e | e . kind ( ) ) ==> self . read_file ( key )
//@ rule if let Some ( c ) = self . files . lock ( ) . unwrap ( ) . get_mut ( key ) { $b:rest } ==> match self . files . vx_get ( Tracked ( w ) , key ) { Some ( vx_c0 ) => { let mut vx_c = vx_c0 ; { let c = & mut vx_c ; $b } self . files . vx_put ( Tracked ( w ) , key . clone ( ) , vx_c ) } None => { } }
    requires old(w).files().contains_key(self.files.id()), room(*old(w), self.files.id()),
    ensures
        final(w).deps() == old(w).deps(), final(w).sent() == old(w).sent(),
        docs_later(*old(w), *final(w), self.files.id()),
        text(*final(w), self.files.id(), *key) == disk(*key),
        known(*old(w), self.files.id(), *key) ==> ver(*final(w), self.files.id(), *key) > ver(*old(w), self.files.id(), *key),
//@ head
    proof { assert(ver(*w, self.files.id(), *key) < u64::MAX); }
//@ end
//@ fn ticc-lsp/src/main.rs FileSet::get
//@ ret r
//@ rule ( & self , key : & FileKey ) ==> ( & self , Tracked ( w ) : Tracked < & mut World > , key : & FileKey )
//@ rule self . read_file ( key ) . map ( Into :: into ) . map_err ( | e | e . kind ( ) ) ==> self . read_file ( key )
//@ rule self . files . lock ( ) . unwrap ( ) . entry ( key . clone ( ) ) . or_insert_with ( | | $d ) . clone ( ) ==> match self . files . vx_get ( Tracked ( w ) , key ) { Some ( c ) => c . clone ( ) , None => { let vx_d = $d ; let vx_r = vx_d . clone ( ) ; self . files . vx_put ( Tracked ( w ) , key . clone ( ) , vx_d ) ; vx_r } }
    requires old(w).files().contains_key(self.files.id()),
    ensures
        final(w).deps() == old(w).deps(), final(w).sent() == old(w).sent(),
        same_docs(*old(w), *final(w), self.files.id()),
        known(*final(w), self.files.id(), *key),
        logical(r.content) == text(*old(w), self.files.id(), *key), r.version == ver(*old(w), self.files.id(), *key),
//@ end
}

// ---- compiled units. A unit reads the shared maps only through its resolver's `lookup`.
#[verifier::external_body]
struct CompilationUnit { u: u8 }
#[verifier::external_body]
struct CompleteUnit { u: u8 }
impl CompleteUnit {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
/// the document a unit was compiled for, its dependencies' map and the documents' map
struct Home { key: FileKey, did: int, fid: int }
impl CompleteUnit {
    uninterp spec fn text(&self) -> Seq<char>;
    uninterp spec fn home(&self) -> Home;
}
impl CompilationUnit {
    /// what a unit is does not change by asking it (C15)
    uninterp spec fn who(&self) -> int;
    uninterp spec fn text(&self) -> Seq<char>;
    uninterp spec fn home(&self) -> Option<Home>;
    uninterp spec fn diags(&self) -> Seq<Diag>;
    #[verifier::external_body]
    fn new(src: &Text, modules: CompilationModuleResolver) -> (r: CompilationUnit)
        ensures r.text() == src@, r.home() == Some(Home { key: modules.current_key, did: modules.dependencies.id(), fid: modules.files.files.id() }) { unimplemented!() }
    /// a unit for the empty text that can import nothing
    #[verifier::external_body]
    fn vx_blank() -> (r: CompilationUnit) ensures r.home() is None, r.text() == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn complete(self, Tracked(w): Tracked<&mut World>) -> (r: CompleteUnit)
        requires self.home() is Some, deps_now(*old(w), self.home()->0.fid, self.home()->0.did),
        ensures r.text() == self.text(), r.home() == self.home()->0, reads_only(*old(w), *final(w), r.home().fid, r.home().did) { unimplemented!() }
}
spec fn dflt(l: Logical) -> Seq<char> { match l { Ok(t) => t, Err(_) => Seq::empty() } }
/// a recorded dependency was compiled from the text the document has now
spec fn entry_now(w: World, fid: int, did: int, k: FileKey, d: Dependency) -> bool {
    &&& known(w, fid, k)
    &&& d.source_version == ver(w, fid, k)
    &&& (d.unit is Some ==> text(w, fid, k) == Logical::Ok((d.unit->0).text()) && (d.unit->0).home() == (Home { key: k, did, fid }))
}
/// a recorded dependency whose version is that of the document was compiled from its text
spec fn entry_inv(w: World, fid: int, did: int, k: FileKey, d: Dependency) -> bool {
    &&& known(w, fid, k)
    &&& d.source_version <= ver(w, fid, k)
    &&& (d.source_version == ver(w, fid, k) ==> entry_now(w, fid, did, k, d))
}
spec fn deps_now(w: World, fid: int, did: int) -> bool {
    &&& w.files().contains_key(fid)
    &&& w.deps().contains_key(did)
    &&& forall|k: FileKey| #[trigger] w.deps()[did].contains_key(k) ==> entry_now(w, fid, did, k, w.deps()[did][k])
}
spec fn deps_inv(w: World, fid: int, did: int) -> bool {
    &&& w.files().contains_key(fid)
    &&& w.deps().contains_key(did)
    &&& forall|k: FileKey| #[trigger] w.deps()[did].contains_key(k) ==> entry_inv(w, fid, did, k, w.deps()[did][k])
}
spec fn other_deps(w0: World, w1: World, did: int) -> bool {
    forall|d: int| #![trigger w1.deps().contains_key(d)] #![trigger w1.deps()[d]] d != did && w0.deps().contains_key(d) ==> w1.deps().contains_key(d) && w1.deps()[d] == w0.deps()[d]
}
/// what compiling does: the documents are only read, recorded dependencies stay, new ones are current
spec fn reads_only(w0: World, w1: World, fid: int, did: int) -> bool {
    &&& same_docs(w0, w1, fid)
    &&& w1.sent() == w0.sent()
    &&& other_deps(w0, w1, did)
    &&& deps_now(w1, fid, did)
    &&& forall|k: FileKey| #![trigger w1.deps()[did].contains_key(k)] w0.deps()[did].contains_key(k) ==> w1.deps()[did].contains_key(k) && w1.deps()[did][k] == w0.deps()[did][k]
}
/// one lookup after the other is again such a step, and so is none
proof fn reads_compose(w0: World, w1: World, w2: World, fid: int, did: int)
    ensures
        deps_now(w0, fid, did) ==> reads_only(w0, w0, fid, did),
        reads_only(w0, w1, fid, did) && reads_only(w1, w2, fid, did) ==> reads_only(w0, w2, fid, did),
{
    if reads_only(w0, w1, fid, did) && reads_only(w1, w2, fid, did) {
        assert forall|k: FileKey| w0.deps()[did].contains_key(k) implies #[trigger] w2.deps()[did].contains_key(k) && w2.deps()[did][k] == w0.deps()[did][k] by {
            assert(w1.deps()[did].contains_key(k));
        }
        assert forall|k: FileKey| #![trigger known(w2, fid, k)] known(w0, fid, k) implies known(w2, fid, k) by { assert(known(w1, fid, k)); }
        assert forall|k: FileKey| #![trigger text(w2, fid, k)] #![trigger ver(w2, fid, k)] text(w2, fid, k) == text(w0, fid, k) && ver(w2, fid, k) == ver(w0, fid, k) by { assert(text(w1, fid, k) == text(w0, fid, k)); }
        assert forall|d: int| #![trigger w2.deps().contains_key(d)] #![trigger w2.deps()[d]] d != did && w0.deps().contains_key(d) implies w2.deps().contains_key(d) && w2.deps()[d] == w0.deps()[d] by { assert(w1.deps().contains_key(d)); }
    }
}

/// reading documents leaves the recorded dependencies current
proof fn docs_read(w0: World, w1: World, fid: int, did: int)
    requires same_docs(w0, w1, fid), w1.deps() == w0.deps(), w1.sent() == w0.sent(), w0.files().contains_key(fid),
    ensures
        deps_now(w0, fid, did) ==> reads_only(w0, w1, fid, did),
        deps_inv(w0, fid, did) ==> deps_inv(w1, fid, did),
{
    assert forall|k: FileKey, d: Dependency| #![trigger entry_now(w1, fid, did, k, d)] entry_now(w0, fid, did, k, d) implies entry_now(w1, fid, did, k, d) by {
        assert(known(w1, fid, k)); assert(text(w1, fid, k) == text(w0, fid, k)); assert(ver(w1, fid, k) == ver(w0, fid, k));
    }
    assert forall|k: FileKey, d: Dependency| #![trigger entry_inv(w1, fid, did, k, d)] entry_inv(w0, fid, did, k, d) implies entry_inv(w1, fid, did, k, d) by {
        assert(known(w1, fid, k)); assert(text(w1, fid, k) == text(w0, fid, k)); assert(ver(w1, fid, k) == ver(w0, fid, k));
        assert(entry_now(w0, fid, did, k, d) ==> entry_now(w1, fid, did, k, d));
    }
}
/// recording one dependency
proof fn dep_put(w0: World, w1: World, fid: int, did: int, k: FileKey, d: Dependency)
    requires
        deps_now(w0, fid, did), w1.files() == w0.files(), w1.sent() == w0.sent(), entry_now(w0, fid, did, k, d),
        w1.deps() == w0.deps().insert(did, w0.deps()[did].insert(k, d)),
    ensures deps_now(w1, fid, did), w0.deps()[did].contains_key(k) || reads_only(w0, w1, fid, did),
{
    same_files(w0, w1, fid);
    assert forall|k: FileKey, d: Dependency| #![trigger entry_now(w1, fid, did, k, d)] entry_now(w1, fid, did, k, d) == entry_now(w0, fid, did, k, d) by { }
    assert forall|j: FileKey| #[trigger] w1.deps()[did].contains_key(j) implies entry_now(w1, fid, did, j, w1.deps()[did][j]) by {
        assert(j == k || w0.deps()[did].contains_key(j));
    }
}
proof fn step_stale(w0: World, w1: World, w2: World, fid: int, did: int)
    requires same_docs(w0, w1, fid), same_docs(w1, w2, fid), w2.deps() == w1.deps(), w2.sent() == w1.sent(), w1.files().contains_key(fid), deps_inv(w1, fid, did),
    ensures same_docs(w0, w2, fid), deps_inv(w2, fid, did),
        forall|k: FileKey, d: Dependency| #![trigger entry_now(w2, fid, did, k, d)] entry_now(w1, fid, did, k, d) ==> entry_now(w2, fid, did, k, d),
        forall|k: FileKey| #![trigger text(w1, fid, k)] #![trigger ver(w1, fid, k)] text(w1, fid, k) == text(w2, fid, k) && ver(w1, fid, k) == ver(w2, fid, k),
{
    docs_read(w1, w2, fid, did);
    assert forall|k: FileKey, d: Dependency| #![trigger entry_now(w2, fid, did, k, d)] entry_now(w1, fid, did, k, d) implies entry_now(w2, fid, did, k, d) by {
        assert(known(w2, fid, k)); assert(text(w2, fid, k) == text(w1, fid, k)); assert(ver(w2, fid, k) == ver(w1, fid, k));
    }
    assert forall|k: FileKey| #![trigger known(w2, fid, k)] known(w0, fid, k) implies known(w2, fid, k) by { assert(known(w1, fid, k)); }
    assert forall|k: FileKey| #![trigger text(w2, fid, k)] #![trigger ver(w2, fid, k)] text(w2, fid, k) == text(w0, fid, k) && ver(w2, fid, k) == ver(w0, fid, k) by { assert(text(w1, fid, k) == text(w0, fid, k)); }
    assert forall|k: FileKey| #![trigger text(w1, fid, k)] #![trigger ver(w1, fid, k)] text(w1, fid, k) == text(w2, fid, k) && ver(w1, fid, k) == ver(w2, fid, k) by { assert(text(w2, fid, k) == text(w1, fid, k)); }
}
proof fn same_as(w0: World, w1: World, fid: int)
    requires same_docs(w0, w1, fid),
    ensures forall|k: FileKey| #![trigger text(w0, fid, k)] #![trigger ver(w0, fid, k)] text(w1, fid, k) == text(w0, fid, k) && ver(w1, fid, k) == ver(w0, fid, k),
        forall|k: FileKey| #![trigger known(w0, fid, k)] known(w0, fid, k) ==> known(w1, fid, k),
{
    assert forall|k: FileKey| #![trigger text(w0, fid, k)] #![trigger ver(w0, fid, k)] text(w1, fid, k) == text(w0, fid, k) && ver(w1, fid, k) == ver(w0, fid, k) by { assert(text(w1, fid, k) == text(w1, fid, k)); }
    assert forall|k: FileKey| #![trigger known(w0, fid, k)] known(w0, fid, k) implies known(w1, fid, k) by { assert(known(w1, fid, k)); }
}
proof fn same_twice(w0: World, w1: World, w2: World, fid: int)
    requires same_docs(w0, w1, fid), same_docs(w1, w2, fid) || w2.files() == w1.files(),
    ensures same_docs(w0, w2, fid),
{
    if w2.files() == w1.files() { same_files(w1, w2, fid); }
    assert forall|k: FileKey| #![trigger known(w2, fid, k)] known(w0, fid, k) implies known(w2, fid, k) by { assert(known(w1, fid, k)); }
    assert forall|k: FileKey| #![trigger text(w2, fid, k)] #![trigger ver(w2, fid, k)] text(w2, fid, k) == text(w0, fid, k) && ver(w2, fid, k) == ver(w0, fid, k) by { assert(text(w1, fid, k) == text(w0, fid, k)); }
}
proof fn later_then_same(w0: World, w1: World, w2: World, fid: int)
    requires docs_later(w0, w1, fid), w2.files() == w1.files() || same_docs(w1, w2, fid),
    ensures docs_later(w0, w2, fid),
{
    if w2.files() == w1.files() { same_files(w1, w2, fid); }
    assert forall|k: FileKey| #![trigger known(w2, fid, k)] #![trigger text(w2, fid, k)] #![trigger ver(w2, fid, k)] known(w0, fid, k) implies known(w2, fid, k)
        && (ver(w2, fid, k) > ver(w0, fid, k) || (text(w2, fid, k) == text(w0, fid, k) && ver(w2, fid, k) == ver(w0, fid, k))) by {
        assert(known(w1, fid, k)); assert(text(w2, fid, k) == text(w1, fid, k)); assert(known(w2, fid, k));
    }
}
proof fn nothing_but_sent(w0: World, w1: World, fid: int, did: int)
    requires w1.files() == w0.files(), w1.deps() == w0.deps(),
    ensures deps_now(w1, fid, did) == deps_now(w0, fid, did), deps_inv(w1, fid, did) == deps_inv(w0, fid, did),
{
    assert forall|k: FileKey, d: Dependency| #![trigger entry_now(w1, fid, did, k, d)] #![trigger entry_now(w0, fid, did, k, d)] entry_now(w1, fid, did, k, d) == entry_now(w0, fid, did, k, d) by { }
    assert forall|k: FileKey, d: Dependency| #![trigger entry_inv(w1, fid, did, k, d)] #![trigger entry_inv(w0, fid, did, k, d)] entry_inv(w1, fid, did, k, d) == entry_inv(w0, fid, did, k, d) by { }
}
proof fn same_files(w0: World, w1: World, fid: int)
    requires w1.files() == w0.files(), w0.files().contains_key(fid),
    ensures same_docs(w0, w1, fid), docs_later(w0, w1, fid),
{ }

#[verifier::external_body]
fn vx_stop<T>() -> T requires false { unimplemented!() }
impl CompilationModuleResolver {
    #[verifier::external_body]
    fn name_to_key(&self, name: &str) -> (r: Option<FileKey>) ensures r == joined(self.current_key, name@) { unimplemented!() }
//@ fn ticc-lsp/src/main.rs ModuleResolver/CompilationModuleResolver::lookup
//@ ret r
//@ rule ( self : Arc < Self > , name : & str ) -> std :: result :: Result < CompleteUnit , ticc :: ImportError > ==> ( & self , Tracked ( w ) : Tracked < & mut World > , name : & str ) -> Result < CompleteUnit , ImportError >
//@ rule ticc :: ImportError ==> ImportError
//@ rule self . files . get ( & key ) ==> self . files . get ( Tracked ( w ) , & key )
//@ rule self . dependencies . lock ( ) . unwrap ( ) . entry ( key . clone ( ) ) ==> self . dependencies . vx_get ( Tracked ( w ) , & key )
//@ rule Entry :: Occupied ( e ) ==> Some ( e )
//@ rule Entry :: Vacant ( e ) ==> None
//@ rule e . get ( ) . unit . clone ( ) ==> e . unit
//@ rule e . insert ( $x:rest ) ==> self . dependencies . vx_put ( Tracked ( w ) , key . clone ( ) , $x )
//@ rule ImportError :: Io ( other . into ( ) ) ==> ImportError :: Io ( other )
//@ rule Arc :: new ( CompilationModuleResolver $x ) ==> CompilationModuleResolver $x
//@ rule Default :: default ( ) , subresolver ==> subresolver
//@ rule . complete ( ) ==> . complete ( Tracked ( w ) )
//@ rule self . dependencies . lock ( ) . unwrap ( ) . get_mut ( & key ) . unwrap ( ) . unit = Some ( $x ) ; ==> let vx_d = self . dependencies . vx_get ( Tracked ( w ) , & key ) ; let mut vx_d = match vx_d { Some ( d ) => d , None => vx_stop ( ) } ; vx_d . unit = Some ( $x ) ; self . dependencies . vx_put ( Tracked ( w ) , key . clone ( ) , vx_d ) ;
    requires deps_now(*old(w), self.files.files.id(), self.dependencies.id()),
    ensures
        reads_only(*old(w), *final(w), self.files.files.id(), self.dependencies.id()),
        ({
            let (fid, did) = (self.files.files.id(), self.dependencies.id());
            match joined(self.current_key, name@) {
                None => r == Result::<CompleteUnit, ImportError>::Err(ImportError::DoesNotExist),
                Some(k) => {
                    &&& final(w).deps()[did].contains_key(k)
                    &&& if old(w).deps()[did].contains_key(k) {
                        r == (match old(w).deps()[did][k].unit { Some(u) => Ok(u), None => Err(ImportError::ImportCycle) })
                    } else {
                        match text(*old(w), fid, k) {
                            Ok(t) => r is Ok && r->Ok_0.text() == t && r->Ok_0.home() == (Home { key: k, did, fid }),
                            Err(e) => r == Result::<CompleteUnit, ImportError>::Err(if e is NotFound { ImportError::DoesNotExist } else { ImportError::Io(e) }),
                        }
                    }
                },
            }
        }),
//@ head
    let ghost (fid, did) = (self.files.files.id(), self.dependencies.id());
    let ghost w0 = *w;
    proof { reads_compose(w0, w0, w0, fid, did); }
//@ after let source =
    let ghost w1 = *w;
    proof { docs_read(w0, w1, fid, did); assert(text(w1, fid, key) == text(w0, fid, key)); assert(ver(w1, fid, key) == ver(w0, fid, key)); }
//@ after match self . dependencies
    let ghost w2 = *w;
    proof { dep_put(w1, w2, fid, did, key, w2.deps()[did][key]); reads_compose(w0, w1, w2, fid, did); }
//@ after let unit =
    let ghost w3 = *w;
    proof { reads_compose(w0, w2, w3, fid, did); assert(w2.deps()[did].contains_key(key)); assert(w3.deps()[did].contains_key(key)); assert(text(w3, fid, key) == text(w0, fid, key)); assert(known(w3, fid, key)); assert(ver(w3, fid, key) == ver(w0, fid, key)); }
//@ before Ok ( unit )
    proof {
        let w4 = *w;
        dep_put(w3, w4, fid, did, key, w4.deps()[did][key]);
        same_files(w3, w4, fid);
        assert forall|k: FileKey| #![trigger text(w4, fid, k)] #![trigger ver(w4, fid, k)] text(w4, fid, k) == text(w0, fid, k) && ver(w4, fid, k) == ver(w0, fid, k) by { assert(text(w3, fid, k) == text(w0, fid, k)); }
        assert forall|k: FileKey| #![trigger known(w4, fid, k)] known(w0, fid, k) implies known(w4, fid, k) by { assert(known(w3, fid, k)); }
    }
//@ end
}

// ---- one compilation
/// the compilation and everything it imported come from the texts the documents have now
spec fn comp_now(w: World, fid: int, c: Compilation) -> bool {
    &&& c.files.files.id() == fid
    &&& known(w, fid, c.key)
    &&& deps_now(w, fid, c.dependencies.id())
    &&& c.source_version == ver(w, fid, c.key)
    &&& c.unit.text() == dflt(text(w, fid, c.key))
    &&& c.unit.home() == Some(Home { key: c.key, did: c.dependencies.id(), fid })
}
/// what is left of that after documents have changed: nothing stale carries a current version
spec fn comp_inv(w: World, fid: int, c: Compilation) -> bool {
    &&& c.files.files.id() == fid
    &&& known(w, fid, c.key)
    &&& deps_inv(w, fid, c.dependencies.id())
    &&& c.source_version <= ver(w, fid, c.key)
    &&& (c.source_version == ver(w, fid, c.key) ==> c.unit.text() == dflt(text(w, fid, c.key)) && c.unit.home() == Some(Home { key: c.key, did: c.dependencies.id(), fid }))
}
/// a change of documents
proof fn comp_later(w0: World, w1: World, fid: int, c: Compilation)
    requires docs_later(w0, w1, fid), w1.deps() == w0.deps(), comp_inv(w0, fid, c),
    ensures comp_inv(w1, fid, c),
{
    let did = c.dependencies.id();
    assert(known(w1, fid, c.key));
    assert forall|k: FileKey| #[trigger] w1.deps()[did].contains_key(k) implies entry_inv(w1, fid, did, k, w1.deps()[did][k]) by {
        assert(entry_inv(w0, fid, did, k, w0.deps()[did][k]));
        assert(known(w1, fid, k));
        assert(text(w1, fid, k) == text(w1, fid, k));
    }
}
impl Compilation {
//@ fn ticc-lsp/src/main.rs Compilation::is_any_dependency_stale
//@ ret r
//@ rule ( & self ) ==> ( & self , Tracked ( w ) : Tracked < & mut World > )
//@ rule self . files . get ( file ) ==> self . files . get ( Tracked ( w ) , file )
//@ rule self . dependencies . lock ( ) . unwrap ( ) . iter ( ) . any ( | ( file , dep ) | $b:rest ) ==> { let vx_es = self . dependencies . vx_entries ( Tracked ( w ) ) ; let mut vx_i : usize = 0 ; let mut vx_any = false ; while vx_i < vx_es . len ( ) && ! vx_any invariant fid == self.files.files.id(), did == self.dependencies.id(), vx_i <= vx_es@.len(), deps_inv(*w, fid, did), same_docs(w0, *w, fid), w.deps() == w0.deps(), w.sent() == w0.sent(), forall|i: int| 0 <= i < vx_es@.len() ==> { let e = #[trigger] vx_es@[i]; w0.deps()[did].contains_key(e.0) && w0.deps()[did][e.0] == e.1 }, !vx_any ==> forall|i: int| 0 <= i < vx_i ==> entry_now(*w, fid, did, (#[trigger] vx_es@[i]).0, vx_es@[i].1), decreases (vx_es@.len() - vx_i) { let file = & vx_es [ vx_i ] . 0 ; let dep = & vx_es [ vx_i ] . 1 ; let ghost w1 = *w; proof { assert(w1.deps()[did].contains_key(*file)); assert(entry_inv(w1, fid, did, *file, *dep)); } let vx_b = $b ; proof { step_stale(w0, w1, *w, fid, did); } vx_i = vx_i + 1 ; if vx_b { vx_any = true ; } } vx_any }
    requires deps_inv(*old(w), self.files.files.id(), self.dependencies.id()),
    ensures
        same_docs(*old(w), *final(w), self.files.files.id()), final(w).deps() == old(w).deps(), final(w).sent() == old(w).sent(),
        deps_inv(*final(w), self.files.files.id(), self.dependencies.id()),
        !r ==> deps_now(*final(w), self.files.files.id(), self.dependencies.id()),
//@ head
    let ghost (fid, did) = (self.files.files.id(), self.dependencies.id());
    let ghost w0 = *w;
//@ end
//@ fn ticc-lsp/src/main.rs Compilation::refresh
//@ ret r
//@ rule ( & mut self ) ==> ( & mut self , Tracked ( w ) : Tracked < & mut World > )
//@ rule self . is_any_dependency_stale ( ) ==> self . is_any_dependency_stale ( Tracked ( w ) )
//@ rule self . dependencies . lock ( ) . unwrap ( ) . clear ( ) ==> self . dependencies . vx_clear ( Tracked ( w ) )
//@ rule self . files . get ( & self . key ) ==> self . files . get ( Tracked ( w ) , & self . key )
//@ rule source . content . ok ( ) . unwrap_or_default ( ) ==> vx_ok_or_default ( source . content )
//@ rule ticc :: Options :: default ( ) , Arc :: new ( $x:rest ) ==> $x
    requires comp_inv(*old(w), old(self).files.files.id(), *old(self)),
    ensures
        comp_now(*final(w), old(self).files.files.id(), *final(self)),
        final(self).key == old(self).key, final(self).dependencies.id() == old(self).dependencies.id(),
        same_docs(*old(w), *final(w), old(self).files.files.id()), final(w).sent() == old(w).sent(),
        other_deps(*old(w), *final(w), old(self).dependencies.id()),
        // a new unit starts without dependencies, as in a fresh server
        r ==> final(w).deps()[old(self).dependencies.id()] == Map::<FileKey, Dependency>::empty(),
        // if it says that nothing is new, nothing was
        !r ==> *final(self) == *old(self) && final(w).deps() == old(w).deps() && old(self).source_version == ver(*old(w), old(self).files.files.id(), old(self).key),
//@ head
    let ghost (fid, did) = (self.files.files.id(), self.dependencies.id());
    let ghost w0 = *w;
//@ before self . dependencies
    let ghost wx = *w;
//@ after self . dependencies
    proof { same_twice(w0, wx, *w, fid); }
//@ after if self . is_any_dependency_stale
    let ghost w1 = *w;
    proof { same_as(w0, w1, fid); if !modified { assert(deps_now(w1, fid, did)); } else { assert(w1.deps()[did] =~= Map::empty()); } }
//@ after let source =
    let ghost w2 = *w;
    proof { docs_read(w1, w2, fid, did); same_twice(w0, w1, w2, fid); assert(text(w2, fid, self.key) == text(w0, fid, self.key)); assert(ver(w2, fid, self.key) == ver(w0, fid, self.key)); assert(known(w2, fid, self.key)); }
//@ after if modified
    proof { same_twice(w0, w2, *w, fid); assert(text(*w, fid, self.key) == text(w0, fid, self.key)); assert(ver(*w, fid, self.key) == ver(w0, fid, self.key)); assert(known(*w, fid, self.key)); }
//@ end
}

// ---- the open documents: `HashMap<FileKey, Compilation>`, owned by the server
#[verifier::external_body]
struct Comps { c: u8 }
impl Comps {
    uninterp spec fn view(&self) -> Map<FileKey, Compilation>;
    #[verifier::external_body]
    fn insert(&mut self, k: FileKey, c: Compilation) ensures final(self)@ == old(self)@.insert(k, c) { unimplemented!() }
    #[verifier::external_body]
    fn remove(&mut self, k: &FileKey) ensures final(self)@ == old(self)@.remove(*k) { unimplemented!() }
    #[verifier::external_body]
    fn get_mut(&mut self, k: &FileKey) -> (r: Option<&mut Compilation>)
        ensures match r {
            Some(c) => old(self)@.contains_key(*k) && *c == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(c)),
            None => !old(self)@.contains_key(*k) && *final(self) == *old(self),
        } { unimplemented!() }
    /// the keys, each once, in the order of the map's iterator
    #[verifier::external_body]
    fn vx_keys(&self) -> (r: Vec<FileKey>)
        ensures r@.no_duplicates(), forall|k: FileKey| #[trigger] self@.contains_key(k) <==> r@.contains(k) { unimplemented!() }
}
#[verifier::external_body]
struct Sender { s: u8 }
impl Sender {
    /// `send(Message::Notification(Notification { method: PublishDiagnostics, params: { uri, diagnostics } })).unwrap()`
    #[verifier::external_body]
    fn vx_publish(&self, Tracked(w): Tracked<&mut World>, p: PublishDiagnosticsParams)
        ensures final(w).files() == old(w).files(), final(w).deps() == old(w).deps(),
            final(w).sent() == old(w).sent().push(Msg::Diagnostics(FileKey(p.uri), p.diagnostics@)) { unimplemented!() }
}
/// `lsp_types::PublishDiagnosticsParams`
struct PublishDiagnosticsParams { uri: Url, diagnostics: Vec<Diag>, version: Option<i32> }
/// the last list published for a document
spec fn last_list(sent: Seq<Msg>, k: FileKey) -> Option<Seq<Diag>> decreases sent.len() {
    if sent.len() == 0 { None } else {
        match sent.last() {
            Msg::Diagnostics(j, l) if j == k => Some(l),
            _ => last_list(sent.drop_last(), k),
        }
    }
}
spec fn fid_of(s: TicServer) -> int { s.files.files.id() }
spec fn is_open(s: TicServer, k: FileKey) -> bool { s.compilations.compilations@.contains_key(k) }
spec fn comp_at(s: TicServer, k: FileKey) -> Compilation { s.compilations.compilations@[k] }
/// one store of documents, a map of dependencies of its own for every open document
spec fn shape(w: World, s: TicServer) -> bool {
    &&& s.compilations.files.files.id() == fid_of(s)
    &&& w.files().contains_key(fid_of(s))
    &&& forall|k: FileKey| #[trigger] is_open(s, k) ==> comp_at(s, k).key == k && w.deps().contains_key(comp_at(s, k).dependencies.id())
    &&& forall|j: FileKey, k: FileKey| #[trigger] is_open(s, j) && #[trigger] is_open(s, k) && comp_at(s, j).dependencies.id() == comp_at(s, k).dependencies.id() ==> j == k
}
/// between two messages: every open document is compiled from the current texts, and the client
/// has been told its diagnostics
spec fn ready(w: World, s: TicServer) -> bool {
    &&& shape(w, s)
    &&& forall|k: FileKey| #[trigger] is_open(s, k) ==> comp_now(w, fid_of(s), comp_at(s, k)) && last_list(w.sent(), k) == Some(comp_at(s, k).unit.diags())
}
/// right after documents have changed
spec fn pending(w: World, s: TicServer) -> bool {
    &&& shape(w, s)
    &&& forall|k: FileKey| #[trigger] is_open(s, k) ==> comp_inv(w, fid_of(s), comp_at(s, k))
        && (last_list(w.sent(), k) == Some(comp_at(s, k).unit.diags()) || comp_at(s, k).source_version < ver(w, fid_of(s), k))
}

// ---- what the handlers ask a unit. A unit may look modules up while it answers, and stays what it is.
spec fn asked(w0: World, w1: World, u0: CompilationUnit, u1: CompilationUnit) -> bool {
    &&& u1.who() == u0.who() && u1.text() == u0.text() && u1.home() == u0.home() && u1.diags() == u0.diags()
    &&& reads_only(w0, w1, u0.home()->0.fid, u0.home()->0.did)
}
proof fn asked_twice(w0: World, w1: World, w2: World, u0: CompilationUnit, u1: CompilationUnit, u2: CompilationUnit)
    requires asked(w0, w1, u0, u1), asked(w1, w2, u1, u2) || (w2 == w1 && u2 == u1),
    ensures asked(w0, w2, u0, u2),
{ reads_compose(w0, w1, w2, u0.home()->0.fid, u0.home()->0.did); }
spec fn askable(w: World, u: CompilationUnit) -> bool { u.home() is Some && deps_now(w, u.home()->0.fid, u.home()->0.did) }
#[verifier::external_body]
fn vx_diagnostics(u: &mut CompilationUnit, Tracked(w): Tracked<&mut World>) -> (r: Vec<Diag>)
    requires askable(*old(w), *old(u)),
    ensures asked(*old(w), *final(w), *old(u), *final(u)), r@ == old(u).diags() { unimplemented!() }

/// the diagnostics of one document were asked for and sent; nothing else happened
spec fn published(w0: World, w1: World, s0: TicServer, s1: TicServer, k: FileKey) -> bool {
    let c0 = comp_at(s0, k);
    let c1 = comp_at(s1, k);
    &&& s1.files == s0.files && s1.compilations.files == s0.compilations.files
    &&& s1.compilations.compilations@ == s0.compilations.compilations@.insert(k, c1)
    &&& c1 == (Compilation { unit: c1.unit, ..c0 })
    &&& c1.unit.who() == c0.unit.who() && c1.unit.text() == c0.unit.text() && c1.unit.home() == c0.unit.home() && c1.unit.diags() == c0.unit.diags()
    &&& same_docs(w0, w1, fid_of(s0))
    &&& other_deps(w0, w1, c0.dependencies.id())
    &&& deps_now(w1, fid_of(s0), c0.dependencies.id())
    &&& w1.sent() == w0.sent().push(Msg::Diagnostics(k, c0.unit.diags()))
}
/// asking one unit leaves the server ready
proof fn still_ready(w0: World, w1: World, s0: TicServer, s1: TicServer, k: FileKey)
    requires
        ready(w0, s0), is_open(s0, k), fid_of(s1) == fid_of(s0), s1.compilations.files.files.id() == s0.compilations.files.files.id(),
        s1.compilations.compilations@ == s0.compilations.compilations@.insert(k, comp_at(s1, k)),
        asked(w0, w1, comp_at(s0, k).unit, comp_at(s1, k).unit),
        comp_at(s1, k) == (Compilation { unit: comp_at(s1, k).unit, ..comp_at(s0, k) }),
    ensures ready(w1, s1), w1.sent() == w0.sent(), same_docs(w0, w1, fid_of(s0)), forall|j: FileKey| #[trigger] is_open(s1, j) == is_open(s0, j),
{
    let fid = fid_of(s0);
    assert forall|j: FileKey| #[trigger] is_open(s1, j) implies is_open(s0, j) && comp_now(w1, fid, comp_at(s1, j)) && last_list(w1.sent(), j) == Some(comp_at(s1, j).unit.diags()) && comp_at(s1, j).key == j && comp_at(s1, j).dependencies.id() == comp_at(s0, j).dependencies.id() by {
        assert(is_open(s0, j));
        assert(comp_now(w0, fid, comp_at(s0, j)));
        assert(is_open(s0, k));
        if j != k { other_comp(w0, w1, fid, comp_at(s0, k).dependencies.id(), comp_at(s0, j)); }
        assert(text(w1, fid, j) == text(w0, fid, j)); assert(ver(w1, fid, j) == ver(w0, fid, j)); assert(known(w1, fid, j));
    }
    assert forall|j: FileKey| #[trigger] is_open(s1, j) == is_open(s0, j) by { }
}
/// a step of one compilation does not touch another
proof fn other_comp(w0: World, w1: World, fid: int, did: int, c: Compilation)
    requires same_docs(w0, w1, fid), other_deps(w0, w1, did), w0.files().contains_key(fid), c.dependencies.id() != did || w1.deps() == w0.deps(), w0.deps().contains_key(c.dependencies.id()),
    ensures comp_now(w0, fid, c) ==> comp_now(w1, fid, c), comp_inv(w0, fid, c) ==> comp_inv(w1, fid, c),
{
    let d = c.dependencies.id();
    assert(w1.deps().contains_key(d) && w1.deps()[d] == w0.deps()[d]);
    assert(known(w1, fid, c.key) == known(w1, fid, c.key)); assert(text(w1, fid, c.key) == text(w0, fid, c.key)); assert(ver(w1, fid, c.key) == ver(w0, fid, c.key));
    assert forall|k: FileKey, e: Dependency| #![trigger entry_now(w1, fid, d, k, e)] entry_now(w0, fid, d, k, e) implies entry_now(w1, fid, d, k, e) by {
        assert(known(w1, fid, k)); assert(text(w1, fid, k) == text(w0, fid, k)); assert(ver(w1, fid, k) == ver(w0, fid, k));
    }
    assert forall|k: FileKey, e: Dependency| #![trigger entry_inv(w1, fid, d, k, e)] entry_inv(w0, fid, d, k, e) implies entry_inv(w1, fid, d, k, e) by {
        assert(known(w1, fid, k)); assert(text(w1, fid, k) == text(w0, fid, k)); assert(ver(w1, fid, k) == ver(w0, fid, k));
        assert(entry_now(w0, fid, d, k, e) ==> entry_now(w1, fid, d, k, e));
    }
}

impl CompilationSet {
//@ fn ticc-lsp/src/main.rs CompilationSet::get_mut
//@ ret r
    ensures
        final(self).files == old(self).files,
        match r {
            Some(c) => old(self).compilations@.contains_key(*file) && *c == old(self).compilations@[*file] && final(self).compilations@ == old(self).compilations@.insert(*file, *final(c)),
            None => !old(self).compilations@.contains_key(*file) && *final(self) == *old(self),
        },
//@ end
//@ fn ticc-lsp/src/main.rs CompilationSet::add_file
//@ rule ( & mut self , file : FileKey , source : & str ) ==> ( & mut self , Tracked ( w ) : Tracked < & mut World > , file : FileKey , source : & str )
//@ rule self . files . set ( $x:rest ) ==> self . files . set ( Tracked ( w ) , $x )
//@ rule CompilationUnit :: new ( "" , Default :: default ( ) , NoopModuleResolver :: new ( ) ) ==> CompilationUnit :: vx_blank ( )
//@ rule dependencies : Default :: default ( ) ==> dependencies : Deps :: vx_new ( Tracked ( w ) )
    requires old(w).files().contains_key(old(self).files.files.id()), room(*old(w), old(self).files.files.id()),
    ensures
        final(self).files == old(self).files,
        final(w).sent() == old(w).sent(),
        docs_later(*old(w), *final(w), old(self).files.files.id()),
        text(*final(w), old(self).files.files.id(), file) == Logical::Ok(source@),
        ({
            let c = final(self).compilations@[file];
            let did = c.dependencies.id();
            &&& final(self).compilations@ == old(self).compilations@.insert(file, c)
            &&& c.key == file
            &&& c.source_version < ver(*final(w), old(self).files.files.id(), file)
            &&& comp_inv(*final(w), old(self).files.files.id(), c)
            &&& !old(w).deps().contains_key(did)
            &&& final(w).deps() == old(w).deps().insert(did, Map::empty())
        }),
//@ head
    let ghost w0 = *w;
    let ghost fid = self.files.files.id();
//@ after self . files . set
    let ghost w1 = *w;
//@ after let compilation =
    proof { later_then_same(w0, w1, *w, fid); same_files(w1, *w, fid); same_as(w1, *w, fid); assert(known(w1, fid, file)); }
//@ end
//@ fn ticc-lsp/src/main.rs CompilationSet::remove_file
    ensures final(self).files == old(self).files, final(self).compilations@ == old(self).compilations@.remove(*file),
//@ end
}
//@ rule file . 0 . clone ( ) ==> file . 0 . clone ( )
//@ fn ticc-lsp/src/handlers.rs send_diagnostics
//@ rule ( server : & mut TicServer , file : FileKey , ) ==> ( server : & mut TicServer , Tracked ( w ) : Tracked < & mut World > , file : FileKey )
//@ rule server . compilations . get_mut ( & file ) . unwrap ( ) ==> match server . compilations . get_mut ( & file ) { Some ( c ) => c , None => vx_stop ( ) }
//@ rule crate :: diagnostics :: get_diagnostics ( & mut compilation . unit ) ==> vx_diagnostics ( & mut compilation . unit , Tracked ( w ) )
//@ rule server . sender . send ( lsp_server :: Message :: Notification ( lsp_server :: Notification { method : notification :: PublishDiagnostics :: METHOD . to_owned ( ) , params : serde_json :: to_value ( lsp_types :: PublishDiagnosticsParams { uri : $u , $d:rest } ) . unwrap ( ) , } ) ) . unwrap ( ) ==> { let vx_p = PublishDiagnosticsParams { uri : $u , $d } ; server . sender . vx_publish ( Tracked ( w ) , vx_p ) }
    requires shape(*old(w), *old(server)), is_open(*old(server), file), comp_now(*old(w), fid_of(*old(server)), comp_at(*old(server), file)),
    ensures
        published(*old(w), *final(w), *old(server), *final(server), file),
//@ head
    let ghost w0 = *w;
    let ghost c0 = comp_at(*server, file);
//@ after let diagnostics =
    let ghost w1 = *w;
//@ after server . sender
    proof { same_twice(w0, w1, *w, fid_of(*old(server))); nothing_but_sent(w1, *w, fid_of(*old(server)), c0.dependencies.id()); }
//@ end

/// `to_update.sort()`: the same keys in some order
#[verifier::external_body]
fn vx_sort(v: &mut Vec<FileKey>) ensures forall|k: FileKey| #[trigger] final(v)@.contains(k) == old(v)@.contains(k) { unimplemented!() }
/// the responses sent so far
spec fn responses(sent: Seq<Msg>) -> Seq<Msg> decreases sent.len() {
    if sent.len() == 0 { Seq::empty() } else {
        match sent.last() { Msg::Diagnostics(_, _) => responses(sent.drop_last()), m => responses(sent.drop_last()).push(m) }
    }
}
proof fn push_list(sent: Seq<Msg>, k: FileKey, l: Seq<Diag>)
    ensures
        responses(sent.push(Msg::Diagnostics(k, l))) == responses(sent),
        forall|j: FileKey| #[trigger] last_list(sent.push(Msg::Diagnostics(k, l)), j) == (if j == k { Some(l) } else { last_list(sent, j) }),
{
    assert(sent.push(Msg::Diagnostics(k, l)).drop_last() =~= sent);
}
/// the server's parts that no message changes, and the set of open documents
spec fn same_server(s0: TicServer, s1: TicServer) -> bool {
    &&& s1.files == s0.files && s1.compilations.files == s0.compilations.files
    &&& forall|k: FileKey| #[trigger] is_open(s1, k) == is_open(s0, k)
}
/// document k is as it is after `refresh`: current, and either told to the client or to be told
spec fn settled(w: World, s: TicServer, todo: Seq<FileKey>, k: FileKey) -> bool {
    comp_now(w, fid_of(s), comp_at(s, k)) && (todo.contains(k) || last_list(w.sent(), k) == Some(comp_at(s, k).unit.diags()))
}
spec fn waiting(w: World, s: TicServer, k: FileKey) -> bool {
    comp_inv(w, fid_of(s), comp_at(s, k)) && (last_list(w.sent(), k) == Some(comp_at(s, k).unit.diags()) || comp_at(s, k).source_version < ver(w, fid_of(s), k))
}
/// a step on document k (its compilation may be replaced) keeps everything about the others
proof fn one_step(w0: World, w1: World, s0: TicServer, s1: TicServer, k: FileKey)
    requires
        shape(w0, s0), is_open(s0, k), fid_of(s1) == fid_of(s0), s1.compilations.files.files.id() == s0.compilations.files.files.id(),
        s1.compilations.compilations@ == s0.compilations.compilations@.insert(k, comp_at(s1, k)),
        comp_at(s1, k).key == k, comp_at(s1, k).dependencies.id() == comp_at(s0, k).dependencies.id(),
        w1.deps().contains_key(comp_at(s0, k).dependencies.id()),
        same_docs(w0, w1, fid_of(s0)), other_deps(w0, w1, comp_at(s0, k).dependencies.id()),
    ensures
        shape(w1, s1), forall|j: FileKey| #[trigger] is_open(s1, j) == is_open(s0, j),
        forall|j: FileKey| j != k && is_open(s0, j) ==> #[trigger] comp_at(s1, j) == comp_at(s0, j) && comp_at(s0, j).key == j
            && (comp_now(w0, fid_of(s0), comp_at(s0, j)) ==> comp_now(w1, fid_of(s0), comp_at(s0, j)))
            && (comp_inv(w0, fid_of(s0), comp_at(s0, j)) ==> comp_inv(w1, fid_of(s0), comp_at(s0, j)))
            && ver(w1, fid_of(s0), j) == ver(w0, fid_of(s0), j),
{
    let fid = fid_of(s0);
    assert forall|j: FileKey| #[trigger] is_open(s1, j) == is_open(s0, j) by { }
    assert forall|j: FileKey| j != k && is_open(s0, j) implies #[trigger] comp_at(s1, j) == comp_at(s0, j) && comp_at(s0, j).key == j
            && (comp_now(w0, fid, comp_at(s0, j)) ==> comp_now(w1, fid, comp_at(s0, j)))
            && (comp_inv(w0, fid, comp_at(s0, j)) ==> comp_inv(w1, fid, comp_at(s0, j)))
            && ver(w1, fid, j) == ver(w0, fid, j) && w1.deps().contains_key(comp_at(s0, j).dependencies.id()) by {
        other_comp(w0, w1, fid, comp_at(s0, k).dependencies.id(), comp_at(s0, j));
        assert(ver(w1, fid, j) == ver(w0, fid, j));
        assert(w1.deps().contains_key(comp_at(s0, j).dependencies.id()));
    }
    assert forall|j: FileKey| #[trigger] is_open(s1, j) implies comp_at(s1, j).key == j && w1.deps().contains_key(comp_at(s1, j).dependencies.id()) by {
        assert(is_open(s0, j));
        if j != k { assert(comp_at(s1, j) == comp_at(s0, j)); }
    }
    assert forall|i: FileKey, j: FileKey| #[trigger] is_open(s1, i) && #[trigger] is_open(s1, j) && comp_at(s1, i).dependencies.id() == comp_at(s1, j).dependencies.id() implies i == j by {
        assert(is_open(s0, i) && is_open(s0, j));
        assert(i != k ==> comp_at(s1, i) == comp_at(s0, i)); assert(j != k ==> comp_at(s1, j) == comp_at(s0, j));
    }
}
//@ fn ticc-lsp/src/handlers.rs on_file_update
//@ rule ( server : & mut TicServer , _file : FileKey , ) ==> ( server : & mut TicServer , Tracked ( w ) : Tracked < & mut World > , _file : FileKey )
//@ rule eprintln ! ( $x:rest ) ; ==>
//@ rule for ( key , comp ) in $i:ident ( $x:rest ) ==> for key in $i ( vx_keys . iter ( ) )
//@ rule comp . refresh ( ) ==> comp . refresh ( Tracked ( w ) )
//@ rule to_update . sort ( ) ==> vx_sort ( & mut to_update )
//@ rule send_diagnostics ( server , key ) ==> send_diagnostics ( server , Tracked ( w ) , key )
    requires pending(*old(w), *old(server)),
    ensures
        ready(*final(w), *final(server)), same_server(*old(server), *final(server)),
        same_docs(*old(w), *final(w), fid_of(*old(server))),
        responses(final(w).sent()) == responses(old(w).sent()),
        forall|k: FileKey| !is_open(*old(server), k) ==> #[trigger] last_list(final(w).sent(), k) == last_list(old(w).sent(), k),
//@ head
    let ghost (w0, s0) = (*w, *server);
    let ghost fid = fid_of(*server);
    let vx_keys = server.compilations.compilations.vx_keys();
    proof {
        same_files(w0, w0, fid);
        assert forall|i: int| 0 <= i < vx_keys@.len() implies waiting(*w, *server, #[trigger] vx_keys@[i]) by { assert(vx_keys@.contains(vx_keys@[i])); assert(is_open(*server, vx_keys@[i])); }
    }
//@ loop 0
    invariant
        fid == fid_of(s0), s0 == *old(server), w0 == *old(w),
        vx_keys@.no_duplicates(), forall|k: FileKey| #[trigger] is_open(s0, k) <==> vx_keys@.contains(k),
        vx_it0.seq().len() == vx_keys@.len(), forall|i: int| 0 <= i < vx_keys@.len() ==> *(#[trigger] vx_it0.seq()[i]) == vx_keys@[i],
        shape(*w, *server), same_server(s0, *server), same_docs(w0, *w, fid), w.sent() == w0.sent(),
        forall|k: FileKey| #[trigger] to_update@.contains(k) ==> is_open(s0, k),
        forall|i: int| 0 <= i < vx_it0.index() ==> settled(*w, *server, to_update@, #[trigger] vx_keys@[i]),
        forall|i: int| vx_it0.index() <= i < vx_keys@.len() ==> waiting(*w, *server, #[trigger] vx_keys@[i]),
//@ loophead 0
    let ghost (w1, s1, t1) = (*w, *server, to_update@);
    let ghost at = vx_it0.index() as int;
    proof { assert(*key == vx_keys@[at]); assert(vx_keys@.contains(*key)); assert(is_open(s0, *key)); assert(is_open(s1, *key)); assert(waiting(*w, *server, vx_keys@[at])); }
    let comp = match server.compilations.compilations.get_mut(key) { Some(c) => c, None => vx_stop() };
//@ looptail 0
    proof {
        let k = *key;
        one_step(w1, *w, s1, *server, k);
        same_twice(w0, w1, *w, fid);
        assert(to_update@ == t1 || (to_update@ == t1.push(k) && to_update@.last() == k));
        assert forall|j: FileKey| #[trigger] to_update@.contains(j) implies is_open(s0, j) by { if !t1.contains(j) { assert(j == k); } }
        assert forall|j: FileKey| t1.contains(j) implies #[trigger] to_update@.contains(j) by { let x = choose|x: int| 0 <= x < t1.len() && t1[x] == j; assert(to_update@[x] == j); }
        assert(settled(*w, *server, to_update@, k));
        assert forall|i: int| 0 <= i < vx_keys@.len() && i != at implies is_open(s0, #[trigger] vx_keys@[i]) && is_open(s1, vx_keys@[i]) && vx_keys@[i] != k by { assert(vx_keys@.contains(vx_keys@[i])); }
        assert forall|i: int| 0 <= i < at implies settled(*w, *server, to_update@, #[trigger] vx_keys@[i]) by { assert(settled(w1, s1, t1, vx_keys@[i])); assert(comp_at(*server, vx_keys@[i]) == comp_at(s1, vx_keys@[i])); }
        assert forall|i: int| at < i < vx_keys@.len() implies waiting(*w, *server, #[trigger] vx_keys@[i]) by { assert(waiting(w1, s1, vx_keys@[i])); assert(comp_at(*server, vx_keys@[i]) == comp_at(s1, vx_keys@[i])); }
    }
//@ after to_update . sort
    let ghost todo = to_update@;
    proof {
        assert forall|k: FileKey| #[trigger] is_open(*server, k) implies settled(*w, *server, todo.skip(0), k) by {
            assert(vx_keys@.contains(k)); let i = choose|i: int| 0 <= i < vx_keys@.len() && vx_keys@[i] == k; assert(settled(*w, *server, t_before, vx_keys@[i])); assert(todo.skip(0) =~= todo);
        }
        assert forall|i: int| 0 <= i < todo.len() implies is_open(s0, #[trigger] todo[i]) by { assert(todo.contains(todo[i])); assert(t_before.contains(todo[i])); }
    }
//@ before to_update . sort
    let ghost t_before = to_update@;
//@ loop 1
    invariant
        fid == fid_of(s0), s0 == *old(server), w0 == *old(w),
        vx_it1.seq() == todo, forall|i: int| 0 <= i < todo.len() ==> is_open(s0, #[trigger] todo[i]),
        shape(*w, *server), same_server(s0, *server), same_docs(w0, *w, fid), responses(w.sent()) == responses(w0.sent()),
        forall|k: FileKey| #[trigger] is_open(*server, k) ==> settled(*w, *server, todo.skip(vx_it1.index() as int), k),
        forall|k: FileKey| !is_open(s0, k) ==> #[trigger] last_list(w.sent(), k) == last_list(w0.sent(), k),
//@ loophead 1
    let ghost (w1, s1) = (*w, *server);
    let ghost at = vx_it1.index() as int;
    let ghost k = key;
    proof { assert(k == todo[at]); assert(is_open(s0, k)); assert(is_open(s1, k)); assert(settled(w1, s1, todo.skip(at), k)); }
//@ looptail 1
    proof {
        one_step(w1, *w, s1, *server, k);
        same_twice(w0, w1, *w, fid);
        push_list(w1.sent(), k, comp_at(s1, k).unit.diags());
        assert(text(*w, fid, k) == text(w1, fid, k)); assert(ver(*w, fid, k) == ver(w1, fid, k)); assert(known(*w, fid, k));
        assert forall|j: FileKey| #[trigger] is_open(*server, j) implies settled(*w, *server, todo.skip(at + 1), j) by {
            assert(is_open(s1, j)); assert(settled(w1, s1, todo.skip(at), j));
            if j != k {
                assert(comp_at(*server, j) == comp_at(s1, j));
                if todo.skip(at).contains(j) { let x = choose|x: int| 0 <= x < todo.skip(at).len() && todo.skip(at)[x] == j; assert(x > 0); assert(todo.skip(at + 1)[x - 1] == j); }
            }
        }
    }
//@ end

// ---- what the client sends (`lsp_types`; the fields the handlers read)
struct TextDocumentItem { uri: Url, text: String }
struct VersionedTextDocumentIdentifier { uri: Url }
struct TextDocumentIdentifier { uri: Url }
struct TextDocumentContentChangeEvent { text: String }
struct DidOpenTextDocumentParams { text_document: TextDocumentItem }
struct DidChangeTextDocumentParams { text_document: VersionedTextDocumentIdentifier, content_changes: Vec<TextDocumentContentChangeEvent> }
struct DidCloseTextDocumentParams { text_document: TextDocumentIdentifier }
//@ rule lsp_types :: $x:ident ==> $x
#[verifier::external_body]
fn vx_last(v: &Vec<TextDocumentContentChangeEvent>) -> (r: Option<&TextDocumentContentChangeEvent>)
    ensures match r { Some(c) => v@.len() > 0 && *c == v@.last(), None => v@.len() == 0 } { unimplemented!() }

//@ rule on_file_update ( server , key ) ==> on_file_update ( server , Tracked ( w ) , key )
/// a change of documents makes a ready server a pending one
proof fn changed(w0: World, w1: World, s0: TicServer, s1: TicServer, k: FileKey)
    requires
        ready(w0, s0), docs_later(w0, w1, fid_of(s0)), w1.sent() == w0.sent(), s1.files == s0.files, s1.compilations.files == s0.compilations.files,
        // k is opened, is closed, or nothing is
        s1.compilations.compilations@ == s0.compilations.compilations@ && w1.deps() == w0.deps()
        || s1.compilations.compilations@ == s0.compilations.compilations@.remove(k) && w1.deps() == w0.deps()
        || s1.compilations.compilations@ == s0.compilations.compilations@.insert(k, comp_at(s1, k)) && comp_at(s1, k).key == k && comp_inv(w1, fid_of(s0), comp_at(s1, k))
            && comp_at(s1, k).source_version < ver(w1, fid_of(s0), k)
            && !w0.deps().contains_key(comp_at(s1, k).dependencies.id()) && w1.deps() == w0.deps().insert(comp_at(s1, k).dependencies.id(), Map::empty()),
    ensures pending(w1, s1),
{
    let fid = fid_of(s0);
    assert forall|j: FileKey| #[trigger] is_open(s1, j) implies comp_inv(w1, fid, comp_at(s1, j))
        && (last_list(w1.sent(), j) == Some(comp_at(s1, j).unit.diags()) || comp_at(s1, j).source_version < ver(w1, fid, j))
        && comp_at(s1, j).key == j && w1.deps().contains_key(comp_at(s1, j).dependencies.id()) && (j == k || is_open(s0, j))
        && (is_open(s0, j) && comp_at(s1, j) == comp_at(s0, j) || (j == k && !w0.deps().contains_key(comp_at(s1, j).dependencies.id()))) by
    {
        if is_open(s0, j) && comp_at(s1, j) == comp_at(s0, j) && (j != k || w1.deps() == w0.deps()) {
            let c = comp_at(s0, j);
            assert(comp_now(w0, fid, c));
            inv_of_now(w0, fid, c);
            later_inv(w0, w1, fid, c);
        }
    }
    assert forall|i: FileKey, j: FileKey| #[trigger] is_open(s1, i) && #[trigger] is_open(s1, j) && comp_at(s1, i).dependencies.id() == comp_at(s1, j).dependencies.id() implies i == j by {
        if i != k { assert(is_open(s0, i)); }
        if j != k { assert(is_open(s0, j)); }
    }
}
proof fn inv_of_now(w: World, fid: int, c: Compilation)
    requires comp_now(w, fid, c),
    ensures comp_inv(w, fid, c),
{
    let did = c.dependencies.id();
    assert forall|k: FileKey| #[trigger] w.deps()[did].contains_key(k) implies entry_inv(w, fid, did, k, w.deps()[did][k]) by { assert(entry_now(w, fid, did, k, w.deps()[did][k])); }
}
proof fn later_inv(w0: World, w1: World, fid: int, c: Compilation)
    requires
        docs_later(w0, w1, fid), comp_inv(w0, fid, c), w1.deps().contains_key(c.dependencies.id()), w1.deps()[c.dependencies.id()] == w0.deps()[c.dependencies.id()],
    ensures comp_inv(w1, fid, c),
{
    let did = c.dependencies.id();
    assert(known(w1, fid, c.key));
    assert(text(w1, fid, c.key) == text(w1, fid, c.key));
    assert forall|k: FileKey| #[trigger] w1.deps()[did].contains_key(k) implies entry_inv(w1, fid, did, k, w1.deps()[did][k]) by {
        assert(entry_inv(w0, fid, did, k, w0.deps()[did][k]));
        assert(known(w1, fid, k));
        assert(text(w1, fid, k) == text(w1, fid, k));
    }
}
//@ fn ticc-lsp/src/handlers.rs on_open
//@ rule ( server : & mut TicServer , params : lsp_types :: DidOpenTextDocumentParams , ) ==> ( server : & mut TicServer , Tracked ( w ) : Tracked < & mut World > , params : DidOpenTextDocumentParams )
//@ rule server . compilations . add_file ( $x:any , & params . text_document . text ) ==> server . compilations . add_file ( Tracked ( w ) , $x , params . text_document . text . as_str ( ) )
    requires ready(*old(w), *old(server)), room(*old(w), fid_of(*old(server))),
    ensures
        ready(*final(w), *final(server)),
        docs_later(*old(w), *final(w), fid_of(*old(server))),
        text(*final(w), fid_of(*old(server)), FileKey(params.text_document.uri)) == Logical::Ok(params.text_document.text@),
        is_open(*final(server), FileKey(params.text_document.uri)),
        forall|k: FileKey| k != FileKey(params.text_document.uri) ==> #[trigger] is_open(*final(server), k) == is_open(*old(server), k),
        responses(final(w).sent()) == responses(old(w).sent()),
//@ head
    let ghost (w0, s0) = (*w, *server);
//@ after server . compilations . add_file
    let ghost (w1, s1) = (*w, *server);
    proof { assert(comp_at(s1, key) == s1.compilations.compilations@[key]); changed(w0, w1, s0, s1, key); }
//@ after on_file_update
    proof {
        later_then_same(w0, w1, *w, fid_of(s0)); assert(text(*w, fid_of(s0), key) == text(w1, fid_of(s0), key));
        assert(is_open(s1, key)); assert(is_open(*server, key));
        assert forall|k: FileKey| k != key implies #[trigger] is_open(*server, k) == is_open(s0, k) by { assert(is_open(s1, k) == is_open(s0, k)); }
    }
//@ end
//@ fn ticc-lsp/src/handlers.rs on_change
//@ rule ( server : & mut TicServer , params : lsp_types :: DidChangeTextDocumentParams , ) ==> ( server : & mut TicServer , Tracked ( w ) : Tracked < & mut World > , params : DidChangeTextDocumentParams )
//@ rule params . content_changes . last ( ) ==> vx_last ( & params . content_changes )
//@ rule server . files . set ( $x:any , & change . text ) ==> server . files . set ( Tracked ( w ) , $x , change . text . as_str ( ) )
    requires ready(*old(w), *old(server)), room(*old(w), fid_of(*old(server))),
    ensures
        ready(*final(w), *final(server)), same_server(*old(server), *final(server)),
        docs_later(*old(w), *final(w), fid_of(*old(server))),
        // the last of the changes is the text of the document
        params.content_changes@.len() > 0 ==> text(*final(w), fid_of(*old(server)), FileKey(params.text_document.uri)) == Logical::Ok(params.content_changes@.last().text@),
        responses(final(w).sent()) == responses(old(w).sent()),
//@ head
    let ghost (w0, s0) = (*w, *server);
    proof { same_files(w0, w0, fid_of(s0)); }
//@ after server . files . set
    let ghost (w1, s1) = (*w, *server);
    proof { changed(w0, w1, s0, s1, key); }
    let ghost k = key;
//@ after on_file_update
    proof { later_then_same(w0, w1, *w, fid_of(s0)); assert(text(*w, fid_of(s0), k) == text(w1, fid_of(s0), k)); }
//@ end
//@ fn ticc-lsp/src/handlers.rs clear_diagnostics
//@ rule ( server : & mut TicServer , file : FileKey , ) ==> ( server : & mut TicServer , Tracked ( w ) : Tracked < & mut World > , file : FileKey )
//@ rule server . sender . send ( lsp_server :: Message :: Notification ( lsp_server :: Notification { method : notification :: PublishDiagnostics :: METHOD . to_owned ( ) , params : serde_json :: to_value ( lsp_types :: PublishDiagnosticsParams { uri : $u , $d:rest } ) . unwrap ( ) , } ) ) . unwrap ( ) ==> { let vx_p = PublishDiagnosticsParams { uri : $u , $d } ; server . sender . vx_publish ( Tracked ( w ) , vx_p ) }
    ensures
        *final(server) == *old(server), final(w).files() == old(w).files(), final(w).deps() == old(w).deps(),
        final(w).sent() == old(w).sent().push(Msg::Diagnostics(file, Seq::empty())),
//@ end
//@ fn ticc-lsp/src/handlers.rs on_close
//@ rule ( server : & mut TicServer , params : lsp_types :: DidCloseTextDocumentParams , ) ==> ( server : & mut TicServer , Tracked ( w ) : Tracked < & mut World > , params : DidCloseTextDocumentParams )
//@ rule server . files . reload ( & key ) ==> server . files . reload ( Tracked ( w ) , & key )
//@ rule clear_diagnostics ( server , $x:rest ) ==> clear_diagnostics ( server , Tracked ( w ) , $x )
    requires ready(*old(w), *old(server)), room(*old(w), fid_of(*old(server))),
    ensures
        ready(*final(w), *final(server)),
        docs_later(*old(w), *final(w), fid_of(*old(server))),
        // the document is what is on disk again, and nothing is reported about it any more
        text(*final(w), fid_of(*old(server)), FileKey(params.text_document.uri)) == disk(FileKey(params.text_document.uri)),
        last_list(final(w).sent(), FileKey(params.text_document.uri)) == Some(Seq::<Diag>::empty()),
        !is_open(*final(server), FileKey(params.text_document.uri)),
        forall|k: FileKey| k != FileKey(params.text_document.uri) ==> #[trigger] is_open(*final(server), k) == is_open(*old(server), k),
        responses(final(w).sent()) == responses(old(w).sent()),
//@ head
    let ghost (w0, s0) = (*w, *server);
    let ghost fid = fid_of(s0);
//@ after server . files . reload
    let ghost w1 = *w;
    proof { changed(w0, w1, s0, *server, key); }
//@ after clear_diagnostics
    let ghost (w2, s2) = (*w, *server);
    let ghost k = key;
    proof {
        push_list(w1.sent(), key, Seq::empty());
        same_files(w1, w2, fid);
        later_then_same(w0, w1, w2, fid);
        assert(!is_open(s2, key));
        assert forall|j: FileKey| #[trigger] is_open(s2, j) implies waiting(w2, s2, j) by { assert(waiting(w1, s2, j)); nothing_but_sent(w1, w2, fid, comp_at(s2, j).dependencies.id()); same_as(w1, w2, fid); assert(ver(w2, fid, j) == ver(w1, fid, j)); assert(text(w2, fid, j) == text(w1, fid, j)); }
        assert(pending(w2, s2));
    }
//@ after on_file_update
    proof {
        later_then_same(w0, w2, *w, fid); assert(text(*w, fid, k) == text(w2, fid, k)); assert(text(w2, fid, k) == text(w1, fid, k));
        assert(!is_open(*server, k));
        assert forall|j: FileKey| j != k implies #[trigger] is_open(*server, j) == is_open(s0, j) by { assert(is_open(s2, j) == is_open(s0, j)); }
    }
//@ end

// ---- requests
#[derive(Clone, Copy)]
struct Position { line: u32, character: u32 }
struct TextDocumentPositionParams { text_document: TextDocumentIdentifier, position: Position }
struct SemanticTokensParams { text_document: TextDocumentIdentifier }
struct GotoDefinitionParams { text_document_position_params: TextDocumentPositionParams }
struct HoverParams { text_document_position_params: TextDocumentPositionParams }
struct CompletionParams { text_document_position: TextDocumentPositionParams }
struct ReferenceContext { include_declaration: bool }
struct ReferenceParams { text_document_position: TextDocumentPositionParams, context: ReferenceContext }
#[verifier::external_body]
struct Range { r: u8 }
struct Location { uri: Url, range: Range }
enum GotoDefinitionResponse { Scalar(Location), Array(Vec<Location>) }
#[verifier::external_body]
struct SemanticToken { r: u8 }
struct SemanticTokens { result_id: Option<String>, data: Vec<SemanticToken> }
enum SemanticTokensResult { Tokens(SemanticTokens), Partial(u8) }
#[verifier::external_body]
struct Hover { r: u8 }
#[verifier::external_body]
struct CompletionResponse { r: u8 }
// the answers of a unit (other properties say what they are)
uninterp spec fn tokens_of(who: int) -> Seq<SemanticToken>;
uninterp spec fn definition_of(who: int, p: Position) -> Option<Range>;
uninterp spec fn references_of(who: int, p: Position) -> Option<Seq<Range>>;
uninterp spec fn hover_of(who: int, p: Position) -> Option<Hover>;
uninterp spec fn completions_of(who: int, p: Position) -> Option<CompletionResponse>;
#[verifier::external_body]
fn vx_semantic_tokens(u: &mut CompilationUnit, Tracked(w): Tracked<&mut World>) -> (r: Vec<SemanticToken>)
    requires askable(*old(w), *old(u)),
    ensures asked(*old(w), *final(w), *old(u), *final(u)), r@ == tokens_of(old(u).who()) { unimplemented!() }
#[verifier::external_body]
fn vx_find_definition(u: &mut CompilationUnit, Tracked(w): Tracked<&mut World>, pos: Position) -> (r: Option<Range>)
    requires askable(*old(w), *old(u)),
    ensures asked(*old(w), *final(w), *old(u), *final(u)), r == definition_of(old(u).who(), pos) { unimplemented!() }
#[verifier::external_body]
fn vx_find_references(u: &mut CompilationUnit, Tracked(w): Tracked<&mut World>, pos: Position) -> (r: Option<Vec<Range>>)
    requires askable(*old(w), *old(u)),
    ensures asked(*old(w), *final(w), *old(u), *final(u)), match r { Some(v) => references_of(old(u).who(), pos) == Some(v@), None => references_of(old(u).who(), pos) is None } { unimplemented!() }
#[verifier::external_body]
fn vx_hover(u: &mut CompilationUnit, Tracked(w): Tracked<&mut World>, pos: Position) -> (r: Option<Hover>)
    requires askable(*old(w), *old(u)),
    ensures asked(*old(w), *final(w), *old(u), *final(u)), r == hover_of(old(u).who(), pos) { unimplemented!() }
#[verifier::external_body]
fn vx_completions(u: &mut CompilationUnit, Tracked(w): Tracked<&mut World>, pos: Position) -> (r: Option<CompletionResponse>)
    requires askable(*old(w), *old(u)),
    ensures asked(*old(w), *final(w), *old(u), *final(u)), r == completions_of(old(u).who(), pos) { unimplemented!() }

/// a request leaves everything as it was, up to what has been read from disk
spec fn undisturbed(w0: World, w1: World, s0: TicServer, s1: TicServer) -> bool {
    ready(w1, s1) && same_server(s0, s1) && same_docs(w0, w1, fid_of(s0)) && w1.sent() == w0.sent()
}
/// the same ranges, all in one document
spec fn located(ls: Seq<Location>, rs: Seq<Range>, u: Url) -> bool {
    ls.len() == rs.len() && forall|i: int| 0 <= i < ls.len() ==> (#[trigger] ls[i]).range == rs[i] && ls[i].uri == u
}
spec fn who_is(s: TicServer, k: FileKey) -> int { comp_at(s, k).unit.who() }
//@ fn ticc-lsp/src/handlers.rs semantic_tokens
//@ ret r
//@ rule ( server : & mut TicServer , params : lsp_types :: SemanticTokensParams , ) ==> ( server : & mut TicServer , Tracked ( w ) : Tracked < & mut World > , params : SemanticTokensParams )
//@ rule crate :: semantic_tokens :: get_semantic_tokens ( & mut compilation . unit ) ==> { proof { assert(is_open(s0, key)); } let vx_a = vx_semantic_tokens ( & mut compilation . unit , Tracked ( w ) ) ; proof { still_ready(w0, *w, s0, *server, key); } vx_a }
    requires ready(*old(w), *old(server)),
    ensures
        undisturbed(*old(w), *final(w), *old(server), *final(server)),
        ({ let k = FileKey(params.text_document.uri); if !is_open(*old(server), k) { r is None } else { match r { Some(SemanticTokensResult::Tokens(t)) => t.data@ == tokens_of(who_is(*old(server), k)), _ => false } } }),
//@ head
    let ghost (w0, s0) = (*w, *server);
    proof { same_files(w0, w0, fid_of(s0)); assert forall|k: FileKey| #[trigger] is_open(s0, k) implies askable(w0, comp_at(s0, k).unit) by { } }
//@ end
//@ fn ticc-lsp/src/handlers.rs go_to_definition
//@ ret r
//@ rule ( server : & mut TicServer , params : lsp_types :: GotoDefinitionParams , ) ==> ( server : & mut TicServer , Tracked ( w ) : Tracked < & mut World > , params : GotoDefinitionParams )
//@ rule crate :: go_to_definition :: find_definition ( & mut compilation . unit , pos ) ==> { proof { assert(is_open(s0, key)); } let vx_a = vx_find_definition ( & mut compilation . unit , Tracked ( w ) , pos ) ; proof { still_ready(w0, *w, s0, *server, key); } vx_a }
    requires ready(*old(w), *old(server)),
    ensures
        undisturbed(*old(w), *final(w), *old(server), *final(server)),
        ({ let k = FileKey(params.text_document_position_params.text_document.uri); if !is_open(*old(server), k) { r is None } else { match definition_of(who_is(*old(server), k), params.text_document_position_params.position) { Some(range) => r == Some(GotoDefinitionResponse::Scalar(Location { uri: k.0, range })), None => r is None } } }),
//@ head
    let ghost (w0, s0) = (*w, *server);
    proof { same_files(w0, w0, fid_of(s0)); assert forall|k: FileKey| #[trigger] is_open(s0, k) implies askable(w0, comp_at(s0, k).unit) by { } }
//@ end
//@ fn ticc-lsp/src/handlers.rs hover
//@ ret r
//@ rule ( server : & mut TicServer , params : lsp_types :: HoverParams , ) ==> ( server : & mut TicServer , Tracked ( w ) : Tracked < & mut World > , params : HoverParams )
//@ rule crate :: hover :: hover ( & mut compilation . unit , pos ) ==> { proof { assert(is_open(s0, key)); } let vx_a = vx_hover ( & mut compilation . unit , Tracked ( w ) , pos ) ; proof { still_ready(w0, *w, s0, *server, key); } vx_a }
    requires ready(*old(w), *old(server)),
    ensures
        undisturbed(*old(w), *final(w), *old(server), *final(server)),
        ({ let k = FileKey(params.text_document_position_params.text_document.uri); if !is_open(*old(server), k) { r is None } else { r == hover_of(who_is(*old(server), k), params.text_document_position_params.position) } }),
//@ head
    let ghost (w0, s0) = (*w, *server);
    proof { same_files(w0, w0, fid_of(s0)); assert forall|k: FileKey| #[trigger] is_open(s0, k) implies askable(w0, comp_at(s0, k).unit) by { } }
//@ end
//@ fn ticc-lsp/src/handlers.rs completions
//@ ret r
//@ rule ( server : & mut TicServer , params : lsp_types :: CompletionParams , ) ==> ( server : & mut TicServer , Tracked ( w ) : Tracked < & mut World > , params : CompletionParams )
//@ rule crate :: completions :: completions ( & mut compilation . unit , pos ) ==> { proof { assert(is_open(s0, key)); } let vx_a = vx_completions ( & mut compilation . unit , Tracked ( w ) , pos ) ; proof { still_ready(w0, *w, s0, *server, key); } vx_a }
    requires ready(*old(w), *old(server)),
    ensures
        undisturbed(*old(w), *final(w), *old(server), *final(server)),
        ({ let k = FileKey(params.text_document_position.text_document.uri); if !is_open(*old(server), k) { r is None } else { r == completions_of(who_is(*old(server), k), params.text_document_position.position) } }),
//@ head
    let ghost (w0, s0) = (*w, *server);
    proof { same_files(w0, w0, fid_of(s0)); assert forall|k: FileKey| #[trigger] is_open(s0, k) implies askable(w0, comp_at(s0, k).unit) by { } }
//@ end
//@ fn ticc-lsp/src/handlers.rs find_references
//@ ret r
//@ rule ( server : & mut TicServer , params : lsp_types :: ReferenceParams , ) ==> ( server : & mut TicServer , Tracked ( w ) : Tracked < & mut World > , params : ReferenceParams )
//@ rule crate :: find_references :: find_references ( & mut compilation . unit , pos ) ? ==> match vx_find_references ( & mut compilation . unit , Tracked ( w ) , pos ) { Some ( x ) => x , None => { proof { still_ready(w0, *w, s0, *server, key); } return None } }
//@ rule crate :: go_to_definition :: find_definition ( & mut compilation . unit , pos ) ==> vx_find_definition ( & mut compilation . unit , Tracked ( w ) , pos )
//@ rule references . into_iter ( ) . map ( | range | $b:rest ) . collect :: < Vec < _ > > ( ) ==> { let ghost vx_rs = references@ ; let mut vx_o = Vec :: new ( ) ; for range in it : references invariant it.seq() == vx_rs, located(vx_o@, vx_rs.take(it.index() as int), key.0) { let vx_l = $b ; vx_o . push ( vx_l ) ; proof { assert(vx_rs.take(it.index() + 1).drop_last() =~= vx_rs.take(it.index() as int)); } } proof { assert(vx_rs.take(vx_rs.len() as int) =~= vx_rs); } vx_o }
    requires ready(*old(w), *old(server)),
    ensures
        undisturbed(*old(w), *final(w), *old(server), *final(server)),
        ({
            let k = FileKey(params.text_document_position.text_document.uri);
            let pos = params.text_document_position.position;
            if !is_open(*old(server), k) { r is None } else {
                match references_of(who_is(*old(server), k), pos) {
                    None => r is None,
                    Some(rs) => {
                        let d = definition_of(who_is(*old(server), k), pos);
                        r is Some && located(r->0@, if params.context.include_declaration && d is Some { rs.push(d->0) } else { rs }, k.0)
                    },
                }
            }
        }),
//@ head
    let ghost (w0, s0) = (*w, *server);
    proof { same_files(w0, w0, fid_of(s0)); assert forall|k: FileKey| #[trigger] is_open(s0, k) implies askable(w0, comp_at(s0, k).unit) by { } }
//@ before let references =
    proof { assert(is_open(s0, key)); }
//@ after let references =
    let ghost (wm, um) = (*w, compilation.unit);
//@ before Some ( references )
    proof { asked_twice(w0, wm, *w, comp_at(s0, key).unit, um, comp_at(*server, key).unit); still_ready(w0, *w, s0, *server, key); }
//@ end

// ---- every request gets one response
struct Request { id: RequestId, method: String, params: Value }
struct ResponseError { code: i32, message: String }
struct Response { id: RequestId, result: Option<Value>, error: Option<ResponseError> }
//@ rule ( server : & mut TicServer , mut request : lsp_server :: Request ) ==> ( server : & mut TicServer , mut request : Request )
impl Sender {
    /// `send(Message::Response(r)).unwrap()`
    #[verifier::external_body]
    fn vx_respond(&self, Tracked(w): Tracked<&mut World>, r: Response)
        ensures final(w).files() == old(w).files(), final(w).deps() == old(w).deps(),
            final(w).sent() == old(w).sent().push(Msg::Response(r.id, r.result, r.error is Some)) { unimplemented!() }
}
/// the parameters and results of the handlers above, whichever it is
#[verifier::external_body]
struct Params { p: u8 }
#[verifier::external_body]
struct Answer { a: u8 }
/// one of the request handlers above, as a function pointer
#[verifier::external_body]
struct RequestFn { f: u8 }
impl RequestFn {
    #[verifier::external_body]
    fn vx_call(&self, server: &mut TicServer, Tracked(w): Tracked<&mut World>, params: Params) -> (r: Answer)
        requires ready(*old(w), *old(server)),
        ensures undisturbed(*old(w), *final(w), *old(server), *final(server)) { unimplemented!() }
}
/// `request.extract::<P>(METHOD)`: the parameters, if the request is of this method
#[verifier::external_body]
fn vx_extract(request: Request) -> (r: Result<(RequestId, Params), Request>)
    ensures match r { Ok(x) => x.0 == request.id, Err(q) => q == request } { unimplemented!() }
/// `serde_json::to_value(..).unwrap()`
#[verifier::external_body]
fn vx_value(a: &Answer) -> Value { unimplemented!() }
//@ rule let response = lsp_server :: Response { $x:rest } ==> let response = Response { $x }
//@ fn ticc-lsp/src/main.rs RequestHandler::new
//@ closure 0
//@ params fn handle_one(handler: &RequestFn, server: &mut TicServer, Tracked(w): Tracked<&mut World>, request: Request) -> (r: Result<Response, Request>)
//@ rule request . extract :: < R :: Params > ( R :: METHOD ) ==> vx_extract ( request )
//@ rule handler ( server , params ) ==> handler . vx_call ( server , Tracked ( w ) , params )
//@ rule serde_json :: to_value ( & result ) . unwrap ( ) ==> vx_value ( & result )
    requires ready(*old(w), *old(server)),
    ensures
        undisturbed(*old(w), *final(w), *old(server), *final(server)),
        match r { Ok(x) => x.id == request.id && x.result is Some && x.error is None, Err(q) => q == request },
//@ head
    proof { same_files(*w, *w, fid_of(*server)); }
//@ end
/// a boxed `handle_one`
#[verifier::external_body]
struct RequestHandler { h: u8 }
impl RequestHandler {
    #[verifier::external_body]
    fn vx_call(&mut self, server: &mut TicServer, Tracked(w): Tracked<&mut World>, request: Request) -> (r: Result<Response, Request>)
        requires ready(*old(w), *old(server)),
        ensures
            undisturbed(*old(w), *final(w), *old(server), *final(server)),
            match r { Ok(x) => x.id == request.id && x.result is Some && x.error is None, Err(q) => q == request } { unimplemented!() }
}
struct Handlers { requests: Vec<RequestHandler> }
proof fn push_response(w0: World, w1: World, s: TicServer, m: Msg)
    requires ready(w0, s), w1.files() == w0.files(), w1.deps() == w0.deps(), w1.sent() == w0.sent().push(m), m is Response,
    ensures ready(w1, s), responses(w1.sent()) == responses(w0.sent()).push(m),
{
    assert(w1.sent().drop_last() =~= w0.sent());
    assert forall|j: FileKey| #[trigger] is_open(s, j) implies comp_now(w1, fid_of(s), comp_at(s, j)) && last_list(w1.sent(), j) == Some(comp_at(s, j).unit.diags()) by {
        nothing_but_sent(w0, w1, fid_of(s), comp_at(s, j).dependencies.id());
        assert(comp_now(w0, fid_of(s), comp_at(s, j)));
        same_files(w0, w1, fid_of(s)); same_as(w0, w1, fid_of(s));
        assert(text(w1, fid_of(s), j) == text(w0, fid_of(s), j)); assert(ver(w1, fid_of(s), j) == ver(w0, fid_of(s), j)); assert(known(w1, fid_of(s), j));
    }
}
proof fn undisturbed_twice(w0: World, w1: World, w2: World, s0: TicServer, s1: TicServer, s2: TicServer)
    requires undisturbed(w0, w1, s0, s1), undisturbed(w1, w2, s1, s2),
    ensures undisturbed(w0, w2, s0, s2),
{
    same_twice(w0, w1, w2, fid_of(s0));
    assert forall|k: FileKey| #[trigger] is_open(s2, k) == is_open(s0, k) by { assert(is_open(s1, k) == is_open(s0, k)); }
}
/// exactly one more response, to this request
spec fn answered(w0: World, w1: World, id: RequestId) -> bool {
    &&& responses(w1.sent()).len() == responses(w0.sent()).len() + 1
    &&& responses(w1.sent()).drop_last() == responses(w0.sent())
    &&& match responses(w1.sent()).last() { Msg::Response(i, v, e) => i == id && (v is Some) != e, _ => false }
}
impl Handlers {
//@ fn ticc-lsp/src/main.rs Handlers::handle_request
//@ rule ( & mut self , server : & mut TicServer , mut request : lsp_server :: Request ) -> Result < ( ) > ==> ( & mut self , server : & mut TicServer , Tracked ( w ) : Tracked < & mut World > , request : Request ) -> Result < ( ) , ( ) >
//@ rule ( handler . handler ) ( server , request ) ==> { let vx_r = handler . vx_call ( server , Tracked ( w ) , request ) ; proof { undisturbed_twice(w0, w1, *w, s0, s1, *server); } vx_r }
//@ rule server . sender . send ( Message :: Response ( response ) ) . unwrap ( ) ==> server . sender . vx_respond ( Tracked ( w ) , response )
//@ rule eprintln ! ( $x:rest ) ; ==>
//@ rule lsp_server :: Response :: new_err ( $a:any , $b:any , format ! ( $c:rest ) , ) ==> vx_error ( $a )
    requires ready(*old(w), *old(server)),
    ensures
        ready(*final(w), *final(server)), same_server(*old(server), *final(server)),
        same_docs(*old(w), *final(w), fid_of(*old(server))),
        answered(*old(w), *final(w), request.id),
//@ attr
#[verifier::loop_isolation(false)]
//@ head
    let mut request = request;
    let ghost (w0, s0) = (*w, *server);
    let ghost id = request.id;
    proof { same_files(w0, w0, fid_of(s0)); }
//@ loop 0
    invariant request.id == id, s0 == *old(server), w0 == *old(w), undisturbed(w0, *w, s0, *server),
//@ loophead 0
    let ghost (w1, s1) = (*w, *server);
//@ before server . sender
    let ghost wa = *w;
//@ after server . sender
    proof { push_response(wa, *w, *server, w.sent().last()); same_twice(w0, wa, *w, fid_of(s0)); assert(responses(w.sent()).drop_last() =~= responses(w0.sent())); }
//@ end
}
/// `Response::new_err`
#[verifier::external_body]
fn vx_error(id: RequestId) -> (r: Response) ensures r.id == id, r.result is None, r.error is Some { unimplemented!() }
}
fn main() {}
