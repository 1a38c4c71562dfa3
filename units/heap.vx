// Unit `heap`: the copying collector and the allocator of the bytecode runner (C04).
use vstd::prelude::*;
verus! {
global size_of usize == 8;

//@ rule pub ( crate ) ==>
//@ rule Header :: SIZE ==> HEADER_SIZE
//@ rule & mut self . raw [ $i:rest ] ==> & mut self . raw . as_slice_mut ( ) [ $i ]
//@ rule & self . raw [ $i:rest ] ==> & self . raw . as_slice ( ) [ $i ]
//@ rule self . bytes . raw . copy_within ==> self . bytes . raw . as_slice_mut ( ) . copy_within

//@ type ticc-eval/src/heap.rs Addr | #[derive(Clone, Copy)]
//@ type ticc-eval/src/heap.rs Value | #[derive(Clone, Copy)]
//@ type ticc-eval/src/heap.rs Header | #[repr(C)]
//@ type ticc-eval/src/heap.rs AlignedBytes
//@ type ticc-eval/src/heap.rs HeapBytes
//@ type ticc-eval/src/heap.rs Heap
//@ type ticc-eval/src/heap.rs ObjAlloc
//@ type ticc-eval/src/heap.rs BytesAlloc
const HEADER_SIZE: u32 = 24;
global layout Header is size == 24, align == 8;

// ---- memory as bytes
/// byte j of a word in memory
uninterp spec fn byte_of(w: u64, j: int) -> u8;
spec fn bytes_of(w: Seq<u64>) -> Seq<u8> { Seq::new(8 * w.len(), |i: int| byte_of(w[i / 8], i % 8)) }
/// the word eight bytes are read as
uninterp spec fn word_of(b: Seq<u8>) -> u64;
/// the header 24 bytes are read as
uninterp spec fn header_of(b: Seq<u8>) -> Header;

spec fn hd(b: Seq<u8>, a: int) -> Header { header_of(b.subrange(a, a + 24)) }
spec fn osize(b: Seq<u8>, a: int) -> int { hd(b, a).size as int }
spec fn nf(b: Seq<u8>, a: int) -> int { (osize(b, a) - 24) / 8 }
spec fn odata(b: Seq<u8>, a: int) -> Seq<u8> { b.subrange(a + 24, a + osize(b, a)) }
spec fn wordat(b: Seq<u8>, i: int) -> u64 { word_of(b.subrange(8 * i, 8 * i + 8)) }
spec fn fval(b: Seq<u8>, a: int, i: int) -> int { wordat(odata(b, a), i) as int }
spec fn hasbit(p: u64, i: int) -> bool { p & (1u64 << (i as usize)) != 0 }
spec fn is_ptr(b: Seq<u8>, a: int, i: int) -> bool { hasbit(hd(b, a).ptrs, i) }

impl AlignedBytes {
    spec fn view(&self) -> Seq<u8> { bytes_of(self.raw@) }
//@ fn ticc-eval/src/heap.rs AlignedBytes::len
//@ ret r
    requires self.raw@.len() * 8 <= usize::MAX,
    ensures r == self@.len(),
//@ end
    /// the words of the vector as bytes (pointer cast in the code)
    #[verifier::external_body]
    fn as_slice(&self) -> (r: &[u8])
        requires self.raw@.len() * 8 <= usize::MAX,
        ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    fn as_slice_mut(&mut self) -> (r: &mut [u8])
        requires old(self).raw@.len() * 8 <= usize::MAX,
        ensures r@ == old(self)@, final(self)@ == final(r)@, final(self).raw@.len() == old(self).raw@.len() { unimplemented!() }
//@ fn ticc-eval/src/heap.rs AlignedBytes::ensure_size
    requires new_size + 7 <= usize::MAX,
    ensures
        final(self)@.len() == (if old(self)@.len() < new_size { ((new_size + 7) / 8) * 8 } else { old(self)@.len() as int }),
        final(self)@.subrange(0, old(self)@.len() as int) == old(self)@,
//@ head
    proof { assert(self@.subrange(0, self@.len() as int) =~= self@); }
    let ghost w = self.raw@;
//@ after if self . raw . len ( ) < need
    proof { assert(self@.subrange(0, bytes_of(w).len() as int) =~= bytes_of(w)); }
//@ end
}
/// `&*(bytes.as_ptr() as *const Header)`
#[verifier::external_body]
fn vx_header(b: &[u8]) -> (r: &Header)
    requires b@.len() == 24,
    ensures *r == header_of(b@) { unimplemented!() }
#[verifier::external_body]
fn vx_header_mut(b: &mut [u8]) -> (r: &mut Header)
    requires old(b)@.len() == 24,
    ensures *r == header_of(old(b)@), *final(r) == header_of(final(b)@), final(b)@.len() == 24, *final(r) == *r ==> final(b)@ == old(b)@ { unimplemented!() }
/// the cast to words
#[verifier::external_body]
fn bytes_to_words(bytes: &[u8]) -> (r: &[u64])
    ensures r@.len() == bytes@.len() / 8, forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == wordat(bytes@, i) { unimplemented!() }
#[verifier::external_body]
fn bytes_to_words_mut(bytes: &mut [u8]) -> (r: &mut [u64])
    ensures r@.len() == old(bytes)@.len() / 8, forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == wordat(old(bytes)@, i),
        final(r)@.len() == r@.len(),
        final(bytes)@.len() == old(bytes)@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] final(r)@[i] == wordat(final(bytes)@, i),
        final(r)@ =~= r@ ==> final(bytes)@ == old(bytes)@ { unimplemented!() }

broadcast proof fn header_ext(b: Seq<u8>, a: int, x: Seq<u8>)
    requires x.len() == 24, 0 <= a, a + 24 <= b.len(), forall|i: int| 0 <= i < 24 ==> x[i] == b[a + i],
    ensures #[trigger] header_of(b.subrange(a, a + 24)) == #[trigger] header_of(x),
{
    assert(x =~= b.subrange(a, a + 24));
}
/// b0 with an object at a written over
spec fn outside_same(b0: Seq<u8>, b1: Seq<u8>, lo: int, hi: int) -> bool {
    b0.len() == b1.len() && forall|i: int| 0 <= i < b0.len() && !(lo <= i < hi) ==> #[trigger] b1[i] == b0[i]
}
spec fn fits(b: Seq<u8>, a: int) -> bool { 0 <= a && a % 8 == 0 && 24 <= osize(b, a) && a + osize(b, a) <= b.len() }

impl HeapBytes {
//@ fn ticc-eval/src/heap.rs HeapBytes::obj_parts_mut
//@ ret r
//@ rule unsafe { & mut * ( header . as_mut_ptr ( ) as * mut Header ) } ==> vx_header_mut ( header )
    requires fits(old(self).raw@, addr.0 as int), old(self).raw.raw@.len() * 8 <= usize::MAX,
    ensures
        *r.0 == hd(old(self).raw@, addr.0 as int),
        r.1@ == odata(old(self).raw@, addr.0 as int),
        outside_same(old(self).raw@, final(self).raw@, addr.0 as int, addr.0 + osize(old(self).raw@, addr.0 as int)),
        hd(final(self).raw@, addr.0 as int) == *final(r.0),
        final(self).raw@.subrange(addr.0 + 24, addr.0 + osize(old(self).raw@, addr.0 as int)) =~= final(r.1)@,
        final(r.1)@.len() == r.1@.len(),
        final(self).raw.raw@.len() == old(self).raw.raw@.len(),
//@ head
    broadcast use header_ext;
    let ghost b0 = self.raw@;
//@ after let ( header , rest )
    proof {
        let k = addr.0 as int;
        assert(header@ =~= b0.subrange(k, k + 24));
        assert(rest@ =~= b0.subrange(k + 24, b0.len() as int));
    }
//@ after let bytes = & mut rest
    proof {
        let k = addr.0 as int;
        assert(bytes@ =~= odata(b0, k));
    }
//@ end
//@ fn ticc-eval/src/heap.rs HeapBytes::obj_header
//@ ret r
//@ rule unsafe { & mut * ( bytes . as_mut_ptr ( ) as * mut Header ) } ==> vx_header_mut ( bytes )
    requires addr.0 % 8 == 0, addr.0 + 24 <= old(self).raw@.len(), old(self).raw.raw@.len() * 8 <= usize::MAX,
    ensures
        *r == hd(old(self).raw@, addr.0 as int),
        outside_same(old(self).raw@, final(self).raw@, addr.0 as int, addr.0 + 24),
        hd(final(self).raw@, addr.0 as int) == *final(r),
        *final(r) == *r ==> final(self).raw@ =~= old(self).raw@,
        final(self).raw.raw@.len() == old(self).raw.raw@.len(),
//@ head
    broadcast use header_ext;
//@ end
//@ fn ticc-eval/src/heap.rs HeapBytes::obj_fields_mut
//@ ret r
    requires fits(old(self).raw@, addr.0 as int), old(self).raw.raw@.len() * 8 <= usize::MAX,
    ensures
        *r.0 == hd(old(self).raw@, addr.0 as int),
        r.1@.len() == nf(old(self).raw@, addr.0 as int),
        forall|i: int| 0 <= i < r.1@.len() ==> #[trigger] r.1@[i] == wordat(odata(old(self).raw@, addr.0 as int), i),
        outside_same(old(self).raw@, final(self).raw@, addr.0 as int, addr.0 + osize(old(self).raw@, addr.0 as int)),
        hd(final(self).raw@, addr.0 as int) == *final(r.0),
        final(r.1)@.len() == r.1@.len(),
        forall|i: int| #![trigger final(r.1)@[i]] #![trigger wordat(final(self).raw@.subrange(addr.0 + 24, addr.0 + osize(old(self).raw@, addr.0 as int)), i)] 0 <= i < r.1@.len() ==> final(r.1)@[i] == wordat(final(self).raw@.subrange(addr.0 + 24, addr.0 + osize(old(self).raw@, addr.0 as int)), i),
        final(r.1)@ =~= r.1@ ==> final(self).raw@.subrange(addr.0 + 24, addr.0 + osize(old(self).raw@, addr.0 as int)) == odata(old(self).raw@, addr.0 as int),
        final(self).raw.raw@.len() == old(self).raw.raw@.len(),
//@ end
//@ fn ticc-eval/src/heap.rs HeapBytes::obj_parts
//@ ret r
//@ rule unsafe { & * ( header . as_ptr ( ) as * const Header ) } ==> vx_header ( header )
    requires fits(self.raw@, addr.0 as int), self.raw.raw@.len() * 8 <= usize::MAX,
    ensures *r.0 == hd(self.raw@, addr.0 as int), r.1@ =~= odata(self.raw@, addr.0 as int),
//@ head
    broadcast use header_ext;
//@ end
//@ fn ticc-eval/src/heap.rs HeapBytes::obj_fields
//@ ret r
    requires fits(self.raw@, addr.0 as int), self.raw.raw@.len() * 8 <= usize::MAX,
    ensures *r.0 == hd(self.raw@, addr.0 as int), r.1@.len() == nf(self.raw@, addr.0 as int),
        forall|i: int| 0 <= i < r.1@.len() ==> #[trigger] r.1@[i] == wordat(odata(self.raw@, addr.0 as int), i),
//@ end
}

// ---- the heap as a graph of objects
/// where objects start, in address order: they fill [at, end of memory)
spec fn tiles(b: Seq<u8>, at: int, s: Seq<int>) -> bool {
    &&& 0 <= at && b.len() % 8 == 0
    &&& at == (if s.len() == 0 { b.len() as int } else { s[0] })
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] tile(b, s, s[i], i)
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] + osize(b, s[i]) <= #[trigger] s[j]
}
spec fn tile(b: Seq<u8>, s: Seq<int>, a: int, i: int) -> bool {
    &&& fits(b, a) && osize(b, a) % 8 == 0
    &&& a + osize(b, a) == (if i + 1 < s.len() { s[i + 1] } else { b.len() as int })
}
/// references only lead to older objects; the collector's pointer mask has one bit per field
spec fn refs_ok(b: Seq<u8>, s: Seq<int>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> #[trigger] obj_refs_ok(b, s, s[i])
}
spec fn obj_refs_ok(b: Seq<u8>, s: Seq<int>, a: int) -> bool {
    &&& hd(b, a).ptrs != 0 ==> nf(b, a) <= 64
    &&& hd(b, a).ptrs != 0 ==> forall|f: int| 0 <= f < nf(b, a) && is_ptr(b, a, f) ==> s.contains(#[trigger] fval(b, a, f)) && fval(b, a, f) > a
}
spec fn unmarked(b: Seq<u8>, s: Seq<int>) -> bool { forall|i: int| 0 <= i < s.len() ==> hd(b, #[trigger] s[i]).mark == 0 }
impl Heap {
    spec fn b(&self) -> Seq<u8> { self.bytes.raw@ }
    /// the heap holds the objects s
    spec fn ok(&self, s: Seq<int>) -> bool {
        &&& self.b().len() < 0x1000_0000_0000_0000 && self.bytes.raw.raw@.len() * 8 == self.b().len()
        &&& self.move_dst@.len() >= self.b().len() / 24
        &&& self.bump <= self.b().len()
        &&& tiles(self.b(), self.bump as int, s)
        &&& refs_ok(self.b(), s)
        &&& unmarked(self.b(), s)
    }
}
/// object a of memory b0 is object c of memory b1, its references sent through m
spec fn same_object(b0: Seq<u8>, a: int, b1: Seq<u8>, c: int, m: Map<int, int>) -> bool {
    &&& hd(b1, c).tag == hd(b0, a).tag && hd(b1, c).size == hd(b0, a).size && hd(b1, c).ptrs == hd(b0, a).ptrs
    &&& hd(b0, a).ptrs == 0 ==> odata(b1, c) == odata(b0, a)
    &&& hd(b0, a).ptrs != 0 ==> forall|f: int| 0 <= f < nf(b0, a) ==> same_field(b0, a, b1, c, m, #[trigger] fval(b1, c, f), f)
}
spec fn same_field(b0: Seq<u8>, a: int, b1: Seq<u8>, c: int, m: Map<int, int>, x: int, f: int) -> bool {
    if is_ptr(b0, a, f) { m.contains_key(fval(b0, a, f)) && x == m[fval(b0, a, f)] } else { x == fval(b0, a, f) }
}
/// m sends objects of (b0, s0) to equal objects of (b1, s1), different ones to different ones
spec fn same_graph(b0: Seq<u8>, s0: Seq<int>, b1: Seq<u8>, s1: Seq<int>, m: Map<int, int>) -> bool {
    &&& forall|a: int| #[trigger] m.contains_key(a) ==> s0.contains(a) && s1.contains(m[a]) && same_object(b0, a, b1, m[a], m)
    &&& forall|a: int, c: int| #[trigger] m.contains_key(a) && #[trigger] m.contains_key(c) && m[a] == m[c] ==> a == c
}

// ---- allocation
//@ fn ticc-eval/src/heap.rs round_up
//@ ret r
    requires bytes <= u32::MAX - 7,
    ensures r == up8(bytes as int),
//@ end
spec fn up8(n: int) -> int { (n + 7) / 8 * 8 }
#[verifier::external_body]
fn vx_panic() -> ! requires false { unimplemented!() }
#[verifier::external_body]
fn vx_fill(x: Addr, n: usize) -> (r: Vec<Addr>) ensures r@.len() == n { unimplemented!() }
impl Heap {
//@ fn ticc-eval/src/heap.rs Heap::new
//@ ret r
//@ rule AlignedBytes :: default ( ) ==> AlignedBytes { raw : Vec :: new ( ) }
//@ rule std :: iter :: repeat ( $a:rest ) . take ( $n:rest ) . collect ( ) ==> vx_fill ( $a , $n )
    ensures r.ok(seq![]), r.bump == r.b().len(),
//@ end
//@ fn ticc-eval/src/heap.rs Heap::raw_alloc
//@ ret r
//@ rule panic ! ( $m:rest ) ==> vx_panic ( )
    requires bytes <= u32::MAX - 31, exists|s: Seq<int>| old(self).ok(s), old(self).bump >= 24 + up8(bytes as int),
    ensures
        r.0.0 == old(self).bump - 24 - up8(bytes as int),
        r.0.0 == final(self).bump,
        *r.1 == (Header { size: (24 + up8(bytes as int)) as u32, mark: 0, ptrs: 0, tag }),
        r.2@.len() == up8(bytes as int),
        outside_same(old(self).b(), final(self).b(), final(self).bump as int, old(self).bump as int),
        final(self).bytes.raw.raw@.len() == old(self).bytes.raw.raw@.len(),
        final(self).move_dst == old(self).move_dst,
        hd(final(self).b(), final(self).bump as int) == *final(r.1),
        final(r.2)@.len() == r.2@.len(),
        final(self).b().subrange(final(self).bump + 24, old(self).bump as int) == final(r.2)@,
//@ head
    proof {
        let s = choose|s: Seq<int>| self.ok(s);
        if s.len() > 0 { assert(tile(self.b(), s, s[0], 0)); }
    }
//@ end

//@ fn ticc-eval/src/heap.rs Heap::alloc_bytes
//@ ret r
    requires bytes <= u32::MAX - 31, exists|s: Seq<int>| old(self).ok(s), old(self).bump >= 24 + up8(bytes as int),
    ensures
        r.addr.0 == final(self).bump == old(self).bump - 24 - up8(bytes as int),
        r.bytes@.len() == up8(bytes as int) == final(r.bytes)@.len(),
        placed(*old(self), *final(self), 24 + up8(bytes as int)),
        hd(final(self).b(), final(self).bump as int) == (Header { size: (24 + up8(bytes as int)) as u32, mark: 0, ptrs: 0, tag }),
        odata(final(self).b(), final(self).bump as int) == final(r.bytes)@,
//@ end
//@ fn ticc-eval/src/heap.rs Heap::alloc_object
//@ ret r
    requires fields <= (u32::MAX - 31) / 8, exists|s: Seq<int>| old(self).ok(s), old(self).bump >= 24 + 8 * fields,
    ensures
        r.addr.0 == final(self).bump == old(self).bump - 24 - 8 * fields,
        *r.header == (Header { size: (24 + 8 * fields) as u32, mark: 0, ptrs: 0, tag }),
        r.fields@.len() == fields == final(r.fields)@.len(),
        placed(*old(self), *final(self), 24 + 8 * fields),
        hd(final(self).b(), final(self).bump as int) == *final(r.header),
        forall|i: int| 0 <= i < fields ==> #[trigger] final(r.fields)@[i] == wordat(final(self).b().subrange(final(self).bump + 24, old(self).bump as int), i),
//@ end
//@ fn ticc-eval/src/heap.rs Heap::allocated
//@ ret r
    requires exists|s: Seq<int>| self.ok(s),
    ensures r == self.b().len() - self.bump,
//@ end
//@ fn ticc-eval/src/heap.rs Heap::capacity
//@ ret r
    requires exists|s: Seq<int>| self.ok(s),
    ensures r == self.b().len(),
//@ end
//@ fn ticc-eval/src/heap.rs Heap::object_size
//@ ret r
    requires bytes <= usize::MAX - 31,
    ensures r == 24 + up8(bytes as int),
//@ end
//@ fn ticc-eval/src/heap.rs Heap::free_space
//@ ret r
    requires exists|s: Seq<int>| self.ok(s),
    ensures r == self.bump,
//@ end
}
/// a block of n bytes was taken below the objects, which stay as they are
spec fn placed(h0: Heap, h1: Heap, n: int) -> bool {
    &&& h1.bump == h0.bump - n
    &&& outside_same(h0.b(), h1.b(), h1.bump as int, h0.bump as int)
    &&& h1.bytes.raw.raw@.len() == h0.bytes.raw.raw@.len()
    &&& h1.move_dst == h0.move_dst
}
proof fn bit_or(p: u64, i: usize)
    requires i < 64,
    ensures forall|j: int| 0 <= j < 64 ==> #[trigger] hasbit(p | (1u64 << i), j) == (hasbit(p, j) || j == i), p | (1u64 << i) != 0,
{
    assert forall|j: int| 0 <= j < 64 implies #[trigger] hasbit(p | (1u64 << i), j) == (hasbit(p, j) || j == i) by {
        let k = j as usize;
        assert(((p | (1u64 << i)) & (1u64 << k) != 0) == (p & (1u64 << k) != 0 || k == i)) by (bit_vector) requires i < 64, k < 64;
    }
    assert(p | (1u64 << i) != 0) by (bit_vector) requires i < 64;
}
impl ObjAlloc<'_> {
    /// field i was written, as a reference if p
    #[verifier::prophetic]
    spec fn wrote(&self, o: &Self, i: int, v: u64, p: bool) -> bool {
        &&& self.addr == o.addr
        &&& self.fields@ == o.fields@.update(i, v)
        &&& self.header.size == o.header.size && self.header.mark == o.header.mark && self.header.tag == o.header.tag
        &&& forall|j: int| 0 <= j < 64 ==> #[trigger] hasbit(self.header.ptrs, j) == (hasbit(o.header.ptrs, j) || (p && j == i))
        &&& self.header.ptrs == 0 ==> !p && o.header.ptrs == 0
        &&& *final(self.header) == *final(o.header) && final(self.fields)@ == final(o.fields)@
    }
//@ fn ticc-eval/src/heap.rs ObjAlloc::put_ptr
    requires idx < old(self).fields@.len(), idx < 64,
    ensures final(self).wrote(old(self), idx as int, addr.0, true),
//@ head
    proof { bit_or(self.header.ptrs, idx); }
//@ end
//@ fn ticc-eval/src/heap.rs ObjAlloc::put_int
    requires idx < old(self).fields@.len(),
    ensures final(self).wrote(old(self), idx as int, value, false),
//@ end
}

// ---- collection
/// an iterator over the places that hold references
#[verifier::external_body]
struct Roots<'a> { x: Vec<&'a mut Addr> }
impl<'a> Roots<'a> {
    uninterp spec fn cells(&self) -> Seq<&'a mut Addr>;
    #[verifier::external_body]
    fn vx_collect(self) -> (r: Vec<&'a mut Addr>) ensures r@ == self.cells() { unimplemented!() }
}
#[verifier::external_body]
fn vx_drain(v: &mut Vec<u64>) -> (r: Vec<u64>) ensures r@ == old(v)@, final(v)@.len() == 0 { unimplemented!() }

proof fn lemma_word(b: Seq<u8>, lo: int, hi: int, i: int)
    requires 0 <= lo <= hi <= b.len(), 0 <= i, 8 * i + 8 <= hi - lo,
    ensures wordat(b.subrange(lo, hi), i) == word_of(b.subrange(lo + 8 * i, lo + 8 * i + 8)),
{
    assert(b.subrange(lo, hi).subrange(8 * i, 8 * i + 8) =~= b.subrange(lo + 8 * i, lo + 8 * i + 8));
}
/// an object is what its bytes are
proof fn keep(b0: Seq<u8>, b1: Seq<u8>, a: int)
    requires fits(b0, a), a + osize(b0, a) <= b1.len(), forall|p: int| a <= p < a + osize(b0, a) ==> b1[p] == b0[p],
    ensures hd(b1, a) == hd(b0, a), odata(b1, a) == odata(b0, a), fits(b1, a),
{
    assert(b1.subrange(a, a + 24) =~= b0.subrange(a, a + 24));
    assert(odata(b1, a) =~= odata(b0, a));
}
/// the same object but for the mark
spec fn but_mark(b0: Seq<u8>, b1: Seq<u8>, a: int) -> bool {
    &&& hd(b1, a).size == hd(b0, a).size && hd(b1, a).ptrs == hd(b0, a).ptrs && hd(b1, a).tag == hd(b0, a).tag
    &&& odata(b1, a) == odata(b0, a)
}
spec fn but_marks(b0: Seq<u8>, b1: Seq<u8>, s: Seq<int>) -> bool {
    &&& b0.len() == b1.len()
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] but_mark(b0, b1, s[i])
}
/// writing one header's mark
proof fn mark_one(b0: Seq<u8>, b1: Seq<u8>, b2: Seq<u8>, at: int, s: Seq<int>, k: int, m: u32)
    requires
        tiles(b0, at, s), but_marks(b0, b1, s), 0 <= k < s.len(),
        outside_same(b1, b2, s[k], s[k] + osize(b0, s[k])),
        hd(b2, s[k]) == (Header { mark: m, ..hd(b1, s[k]) }),
        b2.subrange(s[k] + 24, s[k] + osize(b0, s[k])) == odata(b1, s[k]),
    ensures but_marks(b0, b2, s), forall|i: int| 0 <= i < s.len() && i != k ==> hd(b2, #[trigger] s[i]) == hd(b1, s[i]),
{
    assert(tile(b0, s, s[k], k));
    assert forall|i: int| 0 <= i < s.len() implies but_mark(b0, b2, #[trigger] s[i]) && (i != k ==> hd(b2, s[i]) == hd(b1, s[i])) by {
        assert(tile(b0, s, s[i], i));
        assert(but_mark(b0, b1, s[i]));
        if i < k { assert(s[i] + osize(b0, s[i]) <= s[k]); }
        if i > k { assert(s[k] + osize(b0, s[k]) <= s[i]); }
        if i != k { keep(b1, b2, s[i]); } else { assert(but_mark(b0, b1, s[k])); }
    }
}
proof fn mark_head(b0: Seq<u8>, b1: Seq<u8>, b2: Seq<u8>, at: int, s: Seq<int>, k: int, m: u32)
    requires
        tiles(b0, at, s), but_marks(b0, b1, s), 0 <= k < s.len(), outside_same(b1, b2, s[k], s[k] + 24),
        hd(b2, s[k]) == (Header { mark: m, ..hd(b1, s[k]) }),
    ensures but_marks(b0, b2, s), forall|i: int| 0 <= i < s.len() && i != k ==> hd(b2, #[trigger] s[i]) == hd(b1, s[i]),
{
    assert(tile(b0, s, s[k], k));
    assert(but_mark(b0, b1, s[k]));
    assert(b2.subrange(s[k] + 24, s[k] + osize(b0, s[k])) =~= odata(b1, s[k]));
    mark_one(b0, b1, b2, at, s, k, m);
}
/// object a is a root, or some kept object refers to it
spec fn wanted(b: Seq<u8>, roots: Seq<int>, kept: Seq<Addr>, a: int) -> bool {
    ||| roots.contains(a)
    ||| exists|k: int| 0 <= k < kept.len() && refers(b, (#[trigger] kept[k]).0 as int, nf(b, kept[k].0 as int), a)
}
/// one of the first n fields of object r is a reference to a
spec fn refers(b: Seq<u8>, r: int, n: int, a: int) -> bool {
    hd(b, r).ptrs != 0 && exists|f: int| 0 <= f < n && is_ptr(b, r, f) && #[trigger] fval(b, r, f) == a
}
spec fn values(c: Seq<&mut Addr>) -> Seq<int> { Seq::new(c.len(), |i: int| c[i].0 as int) }
/// every root is an object
spec fn rooted(roots: Seq<int>, s: Seq<int>) -> bool { forall|i: int| 0 <= i < roots.len() ==> s.contains(#[trigger] roots[i]) }

proof fn wanted_push(b: Seq<u8>, roots: Seq<int>, kept: Seq<Addr>, x: Addr, a: int)
    ensures wanted(b, roots, kept.push(x), a) == (wanted(b, roots, kept, a) || refers(b, x.0 as int, nf(b, x.0 as int), a)),
{
    let q = kept.push(x);
    if wanted(b, roots, q, a) && !roots.contains(a) {
        let k = choose|k: int| 0 <= k < q.len() && refers(b, (#[trigger] q[k]).0 as int, nf(b, q[k].0 as int), a);
        if k < kept.len() { assert(refers(b, kept[k].0 as int, nf(b, kept[k].0 as int), a)); }
    }
    if refers(b, x.0 as int, nf(b, x.0 as int), a) { assert(refers(b, q[kept.len() as int].0 as int, nf(b, x.0 as int), a)); }
    if exists|k: int| 0 <= k < kept.len() && refers(b, (#[trigger] kept[k]).0 as int, nf(b, kept[k].0 as int), a) {
        let k = choose|k: int| 0 <= k < kept.len() && refers(b, (#[trigger] kept[k]).0 as int, nf(b, kept[k].0 as int), a);
        assert(refers(b, q[k].0 as int, nf(b, q[k].0 as int), a));
    }
}
spec fn holds(kept: Seq<Addr>, a: int) -> bool { exists|k: int| 0 <= k < kept.len() && (#[trigger] kept[k]).0 == a }
spec fn tot(b: Seq<u8>, kept: Seq<Addr>, n: int) -> int decreases n {
    if n <= 0 { 0 } else { tot(b, kept, n - 1) + osize(b, kept[n - 1].0 as int) }
}
proof fn tot_ext(b: Seq<u8>, p: Seq<Addr>, q: Seq<Addr>, n: int)
    requires n <= p.len(), n <= q.len(), forall|i: int| 0 <= i < n ==> p[i] == q[i],
    ensures tot(b, p, n) == tot(b, q, n),
    decreases n,
{
    if n > 0 { tot_ext(b, p, q, n - 1); }
}
/// the scan has passed the objects before s[kk]
spec fn scanned(b0: Seq<u8>, b: Seq<u8>, at: int, s: Seq<int>, roots: Seq<int>, kept: Seq<Addr>, kk: int) -> bool {
    &&& 0 <= kk <= s.len()
    &&& but_marks(b0, b, s)
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] scan_ok(b0, b, s, roots, kept, kk, i, s[i])
    &&& kept_ok(s, kept, kk)
    &&& 0 <= tot(b0, kept, kept.len() as int) <= place(b0, s, kk) - at
}
spec fn place(b: Seq<u8>, s: Seq<int>, kk: int) -> int { if kk < s.len() { s[kk] } else { b.len() as int } }
spec fn scan_ok(b0: Seq<u8>, b: Seq<u8>, s: Seq<int>, roots: Seq<int>, kept: Seq<Addr>, kk: int, i: int, a: int) -> bool {
    &&& i < kk ==> hd(b, a).mark == 0 && wanted(b0, roots, kept, a) == holds(kept, a)
    &&& i >= kk ==> (hd(b, a).mark != 0) == wanted(b0, roots, kept, a)
}
spec fn kept_ok(s: Seq<int>, kept: Seq<Addr>, kk: int) -> bool {
    &&& forall|k: int| 0 <= k < kept.len() ==> exists|i: int| 0 <= i < kk && #[trigger] s[i] == (#[trigger] kept[k]).0
    &&& forall|k: int, l: int| 0 <= k < l < kept.len() ==> (#[trigger] kept[k]).0 < (#[trigger] kept[l]).0
}
proof fn order(b: Seq<u8>, at: int, s: Seq<int>, i: int, j: int)
    requires tiles(b, at, s), 0 <= i < j <= s.len(),
    ensures s[i] + osize(b, s[i]) <= place(b, s, j), fits(b, s[i]), at <= s[i],
{
    assert(tile(b, s, s[i], i));
    assert(tile(b, s, s[0], 0));
    if j < s.len() { assert(s[i] + osize(b, s[i]) <= s[j]); }
    if i > 0 { assert(s[0] + osize(b, s[0]) <= s[i]); }
}
proof fn bump_in(b: Seq<u8>, at: int, s: Seq<int>)
    requires tiles(b, at, s),
    ensures 0 <= at <= b.len(), at % 8 == 0,
{
    if s.len() > 0 { assert(tile(b, s, s[0], 0)); }
}
proof fn tile_at(b: Seq<u8>, at: int, s: Seq<int>, k: int)
    requires tiles(b, at, s), 0 <= k < s.len(),
    ensures tile(b, s, s[k], k),
{
    assert(tile(b, s, s[k], k));
}
/// passing object kk, which is not marked
proof fn scan_skip(b0: Seq<u8>, b: Seq<u8>, b1: Seq<u8>, at: int, s: Seq<int>, roots: Seq<int>, kept: Seq<Addr>, kk: int)
    requires
        tiles(b0, at, s), scanned(b0, b, at, s, roots, kept, kk), kk < s.len(), hd(b, s[kk]).mark == 0,
        but_marks(b0, b1, s), forall|i: int| 0 <= i < s.len() ==> hd(b1, #[trigger] s[i]).mark == hd(b, s[i]).mark,
    ensures scanned(b0, b1, at, s, roots, kept, kk + 1),
{
    order(b0, at, s, kk, kk + 1);
    assert(tile(b0, s, s[kk], kk));
    assert(scan_ok(b0, b, s, roots, kept, kk, kk, s[kk]));
    if holds(kept, s[kk]) {
        let k = choose|k: int| 0 <= k < kept.len() && (#[trigger] kept[k]).0 == s[kk];
        let i = choose|i: int| 0 <= i < kk && #[trigger] s[i] == kept[k].0;
        order(b0, at, s, i, kk);
    }
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] scan_ok(b0, b1, s, roots, kept, kk + 1, i, s[i]) by {
        assert(scan_ok(b0, b, s, roots, kept, kk, i, s[i]));
    }
    assert forall|k: int| 0 <= k < kept.len() implies exists|i: int| 0 <= i < kk + 1 && #[trigger] s[i] == (#[trigger] kept[k]).0 by {
        let i = choose|i: int| 0 <= i < kk && #[trigger] s[i] == kept[k].0;
        assert(s[i] == kept[k].0);
    }
}
/// marks while the fields of object kk are visited: n of them so far
spec fn visiting(b0: Seq<u8>, b: Seq<u8>, s: Seq<int>, roots: Seq<int>, kept: Seq<Addr>, kk: int, n: int) -> bool {
    &&& but_marks(b0, b, s)
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] visit_ok(b0, b, s, roots, kept, kk, n, i, s[i])
}
spec fn visit_ok(b0: Seq<u8>, b: Seq<u8>, s: Seq<int>, roots: Seq<int>, kept: Seq<Addr>, kk: int, n: int, i: int, a: int) -> bool {
    &&& i <= kk ==> hd(b, a).mark == 0
    &&& i > kk ==> (hd(b, a).mark != 0) == (wanted(b0, roots, kept, a) || refers(b0, s[kk], n, a))
}
/// passing object kk, which is kept
proof fn scan_keep(b0: Seq<u8>, b: Seq<u8>, b1: Seq<u8>, at: int, s: Seq<int>, roots: Seq<int>, kept: Seq<Addr>, x: Addr, kk: int)
    requires
        tiles(b0, at, s), refs_ok(b0, s), scanned(b0, b, at, s, roots, kept, kk), kk < s.len(), hd(b, s[kk]).mark != 0, x.0 == s[kk],
        visiting(b0, b1, s, roots, kept, kk, nf(b0, s[kk])),
    ensures scanned(b0, b1, at, s, roots, kept.push(x), kk + 1),
{
    let q = kept.push(x);
    order(b0, at, s, kk, kk + 1);
    assert(tile(b0, s, s[kk], kk));
    assert(scan_ok(b0, b, s, roots, kept, kk, kk, s[kk]));
    assert(obj_refs_ok(b0, s, s[kk]));
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] scan_ok(b0, b1, s, roots, q, kk + 1, i, s[i]) by {
        assert(scan_ok(b0, b, s, roots, kept, kk, i, s[i]));
        assert(visit_ok(b0, b1, s, roots, kept, kk, nf(b0, s[kk]), i, s[i]));
        wanted_push(b0, roots, kept, x, s[i]);
        if i <= kk {
            if i < kk { order(b0, at, s, i, kk); }
            assert(!refers(b0, s[kk], nf(b0, s[kk]), s[i]));
            if holds(kept, s[i]) { let k = choose|k: int| 0 <= k < kept.len() && (#[trigger] kept[k]).0 == s[i]; assert(q[k].0 == s[i]); }
            if i == kk { assert(q[kept.len() as int].0 == s[i]); }
            if holds(q, s[i]) && i < kk { let k = choose|k: int| 0 <= k < q.len() && (#[trigger] q[k]).0 == s[i]; assert(k < kept.len()); assert(kept[k].0 == s[i]); }
        }
    }
    assert forall|k: int| 0 <= k < q.len() implies exists|i: int| 0 <= i < kk + 1 && #[trigger] s[i] == (#[trigger] q[k]).0 by {
        if k < kept.len() {
            let i = choose|i: int| 0 <= i < kk && #[trigger] s[i] == kept[k].0;
            assert(s[i] == q[k].0);
        } else { assert(s[kk] == q[k].0); }
    }
    assert forall|k: int, l: int| 0 <= k < l < q.len() implies (#[trigger] q[k]).0 < (#[trigger] q[l]).0 by {
        if l == kept.len() {
            let i = choose|i: int| 0 <= i < kk && #[trigger] s[i] == kept[k].0;
            order(b0, at, s, i, kk);
        } else { assert(kept[k].0 < kept[l].0); }
    }
    tot_ext(b0, kept, q, kept.len() as int);
}
proof fn visit_start(b0: Seq<u8>, b: Seq<u8>, b1: Seq<u8>, at: int, s: Seq<int>, roots: Seq<int>, kept: Seq<Addr>, kk: int, n: int)
    requires
        tiles(b0, at, s), scanned(b0, b, at, s, roots, kept, kk), kk < s.len(),
        outside_same(b, b1, s[kk], s[kk] + osize(b0, s[kk])),
        hd(b1, s[kk]) == (Header { mark: 0, ..hd(b, s[kk]) }),
        b1.subrange(s[kk] + 24, s[kk] + osize(b0, s[kk])) == odata(b, s[kk]),
        n == 0 || hd(b0, s[kk]).ptrs == 0,
    ensures visiting(b0, b1, s, roots, kept, kk, n),
{
    mark_one(b0, b, b1, at, s, kk, 0);
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] visit_ok(b0, b1, s, roots, kept, kk, n, i, s[i]) by {
        assert(scan_ok(b0, b, s, roots, kept, kk, i, s[i]));
        if i != kk { assert(hd(b1, s[i]) == hd(b, s[i])); }
        assert(!refers(b0, s[kk], n, s[i]));
    }
}
/// one field of object kk visited
proof fn visit_step(b0: Seq<u8>, b: Seq<u8>, b1: Seq<u8>, at: int, s: Seq<int>, roots: Seq<int>, kept: Seq<Addr>, kk: int, f: int)
    requires
        tiles(b0, at, s), refs_ok(b0, s), 0 <= kk < s.len(), visiting(b0, b, s, roots, kept, kk, f), 0 <= f < nf(b0, s[kk]), hd(b0, s[kk]).ptrs != 0,
        !is_ptr(b0, s[kk], f) ==> b1 == b,
        is_ptr(b0, s[kk], f) ==> outside_same(b, b1, fval(b0, s[kk], f), fval(b0, s[kk], f) + 24)
            && hd(b1, fval(b0, s[kk], f)).mark != 0 && hd(b1, fval(b0, s[kk], f)) == (Header { mark: hd(b1, fval(b0, s[kk], f)).mark, ..hd(b, fval(b0, s[kk], f)) }),
    ensures visiting(b0, b1, s, roots, kept, kk, f + 1),
{
    let t = fval(b0, s[kk], f);
    assert(obj_refs_ok(b0, s, s[kk]));
    assert(tile(b0, s, s[kk], kk));
    if is_ptr(b0, s[kk], f) {
        assert(s.contains(t));
        let k = choose|k: int| 0 <= k < s.len() && s[k] == t;
        mark_head(b0, b, b1, at, s, k, hd(b1, t).mark);
    }
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] visit_ok(b0, b1, s, roots, kept, kk, f + 1, i, s[i]) by {
        let a = s[i];
        assert(visit_ok(b0, b, s, roots, kept, kk, f, i, s[i]));
        if refers(b0, s[kk], f, a) {
            let g = choose|g: int| 0 <= g < f && is_ptr(b0, s[kk], g) && #[trigger] fval(b0, s[kk], g) == a;
            assert(fval(b0, s[kk], g) == a);
            assert(refers(b0, s[kk], f + 1, a));
        }
        if refers(b0, s[kk], f + 1, a) {
            let g = choose|g: int| 0 <= g < f + 1 && is_ptr(b0, s[kk], g) && #[trigger] fval(b0, s[kk], g) == a;
            if g < f { assert(fval(b0, s[kk], g) == a); assert(refers(b0, s[kk], f, a)); }
        }
        if is_ptr(b0, s[kk], f) {
            if a == t { assert(refers(b0, s[kk], f + 1, a)); if i <= kk { if i < kk { order(b0, at, s, i, kk); } } }
            else { let k = choose|k: int| 0 <= k < s.len() && s[k] == t; assert(i != k); }
        }
    }
}

/// the collection kept exactly the objects kept[..], unmarked, their references among themselves
spec fn settled(b: Seq<u8>, kept: Seq<Addr>) -> bool {
    &&& forall|k: int| 0 <= k < kept.len() ==> #[trigger] settled_at(b, kept, k)
}
spec fn later(kept: Seq<Addr>, k: int, t: int) -> bool { exists|l: int| k < l < kept.len() && (#[trigger] kept[l]).0 == t }
spec fn settled_at(b: Seq<u8>, kept: Seq<Addr>, k: int) -> bool {
    let a = kept[k].0 as int;
    &&& fits(b, a) && osize(b, a) % 8 == 0 && hd(b, a).mark == 0
    &&& k + 1 < kept.len() ==> a + osize(b, a) <= kept[k + 1].0
    &&& hd(b, a).ptrs != 0 ==> nf(b, a) <= 64
    &&& hd(b, a).ptrs != 0 ==> forall|f: int| 0 <= f < nf(b, a) && is_ptr(b, a, f) ==> later(kept, k, #[trigger] fval(b, a, f))
}
proof fn kept_apart(b: Seq<u8>, kept: Seq<Addr>, k: int, l: int)
    requires settled(b, kept), 0 <= k < l < kept.len(),
    ensures kept[k].0 + osize(b, kept[k].0 as int) <= kept[l].0,
    decreases l - k,
{
    assert(settled_at(b, kept, k));
    if k + 1 < l { kept_apart(b, kept, k + 1, l); assert(settled_at(b, kept, k + 1)); }
}
proof fn settle_one(b0: Seq<u8>, b1: Seq<u8>, b2: Seq<u8>, at: int, s: Seq<int>, roots: Seq<int>, kept: Seq<Addr>, k: int)
    requires
        tiles(b0, at, s), refs_ok(b0, s), scanned(b0, b1, at, s, roots, kept, s.len() as int),
        b1.len() <= b2.len(), b2.subrange(0, b1.len() as int) == b1, 0 <= k < kept.len(),
    ensures
        s.contains(kept[k].0 as int), but_mark(b0, b2, kept[k].0 as int), wanted(b0, roots, kept, kept[k].0 as int),
        hd(b2, kept[k].0 as int).mark == 0, kept[k].0 + osize(b2, kept[k].0 as int) <= b0.len(), fits(b2, kept[k].0 as int), osize(b2, kept[k].0 as int) % 8 == 0,
        k + 1 < kept.len() ==> kept[k].0 + osize(b2, kept[k].0 as int) <= kept[k + 1].0,
{
    let a = kept[k].0 as int;
    let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == kept[k].0;
    assert(tile(b0, s, s[i], i));
    assert(but_mark(b0, b1, s[i]));
    assert forall|p: int| 0 <= p < b1.len() implies b2[p] == b1[p] by { assert(b2.subrange(0, b1.len() as int)[p] == b1[p]); }
    keep(b1, b2, a);
    assert(scan_ok(b0, b1, s, roots, kept, s.len() as int, i, s[i]));
    assert(holds(kept, a));
    if k + 1 < kept.len() {
        let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j] == kept[k + 1].0;
        assert(kept[k].0 < kept[k + 1].0);
        if j < i { order(b0, at, s, j, i); }
        order(b0, at, s, i, j);
    }
}
proof fn settle_refs(b0: Seq<u8>, b1: Seq<u8>, b2: Seq<u8>, at: int, s: Seq<int>, roots: Seq<int>, kept: Seq<Addr>, k: int, f: int)
    requires
        tiles(b0, at, s), refs_ok(b0, s), scanned(b0, b1, at, s, roots, kept, s.len() as int),
        0 <= k < kept.len(), s.contains(kept[k].0 as int), but_mark(b0, b2, kept[k].0 as int),
        hd(b0, kept[k].0 as int).ptrs != 0, 0 <= f < nf(b0, kept[k].0 as int), is_ptr(b0, kept[k].0 as int, f),
    ensures later(kept, k, fval(b2, kept[k].0 as int, f)),
{
    let a = kept[k].0 as int;
    let i = choose|i: int| 0 <= i < s.len() && s[i] == a;
    let t = fval(b0, a, f);
    assert(obj_refs_ok(b0, s, s[i]));
    assert(s.contains(t));
    let j = choose|j: int| 0 <= j < s.len() && s[j] == t;
    assert(refers(b0, a, nf(b0, a), t));
    assert(wanted(b0, roots, kept, t)) by { assert(refers(b0, kept[k].0 as int, nf(b0, kept[k].0 as int), t)); }
    assert(scan_ok(b0, b1, s, roots, kept, s.len() as int, j, s[j]));
    let l = choose|l: int| 0 <= l < kept.len() && (#[trigger] kept[l]).0 == t;
    if l < k { assert(kept[l].0 < kept[k].0); }
    assert(kept[l].0 == fval(b2, a, f));
}
/// b1: the memory after the scan, b2: after it grew
proof fn settle(b0: Seq<u8>, b1: Seq<u8>, b2: Seq<u8>, at: int, s: Seq<int>, roots: Seq<int>, kept: Seq<Addr>)
    requires
        tiles(b0, at, s), refs_ok(b0, s), scanned(b0, b1, at, s, roots, kept, s.len() as int),
        b1.len() <= b2.len(), b2.subrange(0, b1.len() as int) == b1,
    ensures
        settled(b2, kept), kept.len() > 0 ==> kept.last().0 + osize(b2, kept.last().0 as int) <= b0.len(),
        forall|k: int| 0 <= k < kept.len() ==> s.contains((#[trigger] kept[k]).0 as int) && but_mark(b0, b2, kept[k].0 as int) && wanted(b0, roots, kept, kept[k].0 as int),
        tot(b2, kept, kept.len() as int) == tot(b0, kept, kept.len() as int),
{
    assert forall|k: int| 0 <= k < kept.len() implies s.contains((#[trigger] kept[k]).0 as int) && but_mark(b0, b2, kept[k].0 as int) && wanted(b0, roots, kept, kept[k].0 as int) by {
        settle_one(b0, b1, b2, at, s, roots, kept, k);
    }
    assert forall|k: int| 0 <= k < kept.len() implies #[trigger] settled_at(b2, kept, k) by {
        let a = kept[k].0 as int;
        settle_one(b0, b1, b2, at, s, roots, kept, k);
        if hd(b2, a).ptrs != 0 {
            let i = choose|i: int| 0 <= i < s.len() && s[i] == a;
            assert(obj_refs_ok(b0, s, s[i]));
            assert forall|f: int| 0 <= f < nf(b2, a) && is_ptr(b2, a, f) implies later(kept, k, #[trigger] fval(b2, a, f)) by {
                settle_refs(b0, b1, b2, at, s, roots, kept, k, f);
            }
        }
    }
    if kept.len() > 0 { settle_one(b0, b1, b2, at, s, roots, kept, kept.len() - 1); }
    tot_eq(b0, b2, kept, kept.len() as int);
}
proof fn tot_eq(b0: Seq<u8>, b2: Seq<u8>, kept: Seq<Addr>, n: int)
    requires n <= kept.len(), forall|k: int| 0 <= k < kept.len() ==> but_mark(b0, b2, (#[trigger] kept[k]).0 as int),
    ensures tot(b2, kept, n) == tot(b0, kept, n),
    decreases n,
{
    if n > 0 { tot_eq(b0, b2, kept, n - 1); }
}
/// the objects kept[j..] of memory b stand at dst of memory c
spec fn moved(b: Seq<u8>, kept: Seq<Addr>, j: int, c: Seq<u8>, bump: int, dst: Seq<int>, m: Map<int, int>) -> bool {
    &&& 0 <= j <= kept.len() && dst.len() == kept.len() - j && c.len() == b.len()
    &&& tiles(c, bump, dst) && refs_ok(c, dst) && unmarked(c, dst)
    &&& forall|k: int| j <= k < kept.len() ==> #[trigger] moved_at(b, kept, j, c, dst, m, k)
    &&& forall|a: int| m.contains_key(a) ==> exists|k: int| j <= k < kept.len() && (#[trigger] kept[k]).0 == a
    &&& bump >= (if j < kept.len() { kept[j].0 as int } else { bump })
    &&& forall|p: int| 0 <= p < bump ==> #[trigger] c[p] == b[p]
    &&& b.len() - bump == tot(b, kept, kept.len() as int) - tot(b, kept, j)
}
spec fn moved_at(b: Seq<u8>, kept: Seq<Addr>, j: int, c: Seq<u8>, dst: Seq<int>, m: Map<int, int>, k: int) -> bool {
    let a = kept[k].0 as int;
    &&& m.contains_key(a) && m[a] == dst[k - j]
    &&& same_object(b, a, c, dst[k - j], m)
}
/// what the forwarding table says of object a
spec fn sent(mv: Seq<Addr>, a: int) -> int { mv[a / 24].0 as int }
/// every reference of object a is to a moved object, and the table knows where it went
spec fn forwards(b: Seq<u8>, a: int, mv: Seq<Addr>, m: Map<int, int>) -> bool {
    forall|f: int| 0 <= f < nf(b, a) && is_ptr(b, a, f) ==> #[trigger] forwards_at(mv, m, fval(b, a, f))
}
spec fn forwards_at(mv: Seq<Addr>, m: Map<int, int>, t: int) -> bool { 0 <= t && t / 24 < mv.len() && m.contains_key(t) && sent(mv, t) == m[t] }
proof fn forward(b: Seq<u8>, kept: Seq<Addr>, j: int, c: Seq<u8>, bump: int, dst: Seq<int>, m: Map<int, int>, mv: Seq<Addr>)
    requires
        settled(b, kept), moved(b, kept, j, c, bump, dst, m), j > 0, mv.len() >= b.len() / 24, hd(b, kept[j - 1].0 as int).ptrs != 0,
        forall|k: int| j <= k < kept.len() ==> sent(mv, (#[trigger] kept[k]).0 as int) == dst[k - j],
    ensures nf(b, kept[j - 1].0 as int) <= 64, forwards(b, kept[j - 1].0 as int, mv, m),
{
    let a = kept[j - 1].0 as int;
    assert(settled_at(b, kept, j - 1));
    assert forall|f: int| 0 <= f < nf(b, a) && is_ptr(b, a, f) implies #[trigger] forwards_at(mv, m, fval(b, a, f)) by {
        assert(later(kept, j - 1, fval(b, a, f)));
        let l = choose|l: int| j - 1 < l < kept.len() && (#[trigger] kept[l]).0 == fval(b, a, f);
        assert(moved_at(b, kept, j, c, dst, m, l));
        assert(settled_at(b, kept, l));
        assert(sent(mv, kept[l].0 as int) == dst[l - j]);
    }
}
/// object kept[j - 1] moved to bump - its size: c1 after the copy, c2 after its references were updated
proof fn move_one(b: Seq<u8>, kept: Seq<Addr>, j: int, c: Seq<u8>, bump: int, dst: Seq<int>, m: Map<int, int>, c2: Seq<u8>)
    requires
        settled(b, kept), moved(b, kept, j, c, bump, dst, m), j > 0,
        ({
            let a = kept[j - 1].0 as int;
            let d = bump - osize(b, a);
            &&& a <= d
            &&& outside_same(c, c2, d, bump)
            &&& hd(c2, d) == hd(b, a)
            &&& same_object(b, a, c2, d, m)
        }),
    ensures
        moved(b, kept, j - 1, c2, bump - osize(b, kept[j - 1].0 as int), seq![bump - osize(b, kept[j - 1].0 as int)] + dst, m.insert(kept[j - 1].0 as int, bump - osize(b, kept[j - 1].0 as int))),
{
    let a = kept[j - 1].0 as int;
    let d = bump - osize(b, a);
    let e = seq![d] + dst;
    let n = m.insert(a, d);
    assert(settled_at(b, kept, j - 1));
    if m.contains_key(a) {
        let k = choose|k: int| j <= k < kept.len() && (#[trigger] kept[k]).0 == a;
        kept_apart(b, kept, j - 1, k);
    }
    if dst.len() > 0 { assert(tile(c, dst, dst[0], 0)); }
    assert forall|i: int| 0 <= i < e.len() implies #[trigger] tile(c2, e, e[i], i) by {
        if i > 0 {
            assert(tile(c, dst, dst[i - 1], i - 1));
            order(c, bump, dst, i - 1, i);
            keep(c, c2, dst[i - 1]);
        }
    }
    assert forall|i: int, k: int| 0 <= i < k < e.len() implies #[trigger] e[i] + osize(c2, e[i]) <= #[trigger] e[k] by {
        if k > 0 { order(c, bump, dst, k - 1, k); }
        if i > 0 {
            order(c, bump, dst, i - 1, k - 1);
            keep(c, c2, dst[i - 1]);
        }
    }
    assert(tiles(c2, d, e));
    assert forall|i: int| 0 <= i < e.len() implies #[trigger] obj_refs_ok(c2, e, e[i]) && hd(c2, e[i]).mark == 0 by {
        if i > 0 {
            order(c, bump, dst, i - 1, i);
            keep(c, c2, dst[i - 1]);
            assert(obj_refs_ok(c, dst, dst[i - 1]));
            let x = dst[i - 1];
            if hd(c2, x).ptrs != 0 {
                assert forall|f: int| 0 <= f < nf(c2, x) && is_ptr(c2, x, f) implies e.contains(#[trigger] fval(c2, x, f)) && fval(c2, x, f) > x by {
                    assert(dst.contains(fval(c, x, f)));
                    let y = choose|y: int| 0 <= y < dst.len() && dst[y] == fval(c, x, f);
                    assert(e[y + 1] == fval(c2, x, f));
                }
            }
        } else if hd(c2, d).ptrs != 0 {
            assert forall|f: int| 0 <= f < nf(c2, d) && is_ptr(c2, d, f) implies e.contains(#[trigger] fval(c2, d, f)) && fval(c2, d, f) > d by {
                assert(same_field(b, a, c2, d, m, fval(c2, d, f), f));
                let y = choose|l: int| j <= l < kept.len() && (#[trigger] kept[l]).0 == fval(b, a, f);
                assert(moved_at(b, kept, j, c, dst, m, y));
                order(c, bump, dst, y - j, y - j + 1);
                assert(e[y - j + 1] == fval(c2, d, f));
            }
        }
    }
    assert(refs_ok(c2, e));
    assert(unmarked(c2, e)) by {
        assert forall|i: int| 0 <= i < e.len() implies hd(c2, #[trigger] e[i]).mark == 0 by { assert(obj_refs_ok(c2, e, e[i])); }
    }
    assert forall|k: int| j - 1 <= k < kept.len() implies #[trigger] moved_at(b, kept, j - 1, c2, e, n, k) by {
        if k >= j {
            let x = kept[k].0 as int;
            assert(moved_at(b, kept, j, c, dst, m, k));
            kept_apart(b, kept, j - 1, k);
            order(c, bump, dst, k - j, k - j + 1);
            keep(c, c2, dst[k - j]);
            assert(e[k - j + 1] == dst[k - j]);
            extend_map(b, x, c, c2, dst[k - j], m, a, d);
        } else {
            extend_map(b, a, c2, c2, d, m, a, d);
            assert(e[0] == d);
        }
    }
    assert forall|x: int| n.contains_key(x) implies exists|k: int| j - 1 <= k < kept.len() && (#[trigger] kept[k]).0 == x by {
        if x == a { assert(kept[j - 1].0 == x); } else {
            let k = choose|k: int| j <= k < kept.len() && (#[trigger] kept[k]).0 == x;
            assert(kept[k].0 == x);
        }
    }
}
/// m only grows, at an object nothing moved so far refers to
proof fn extend_map(b: Seq<u8>, x: int, c: Seq<u8>, c2: Seq<u8>, y: int, m: Map<int, int>, a: int, d: int)
    requires same_object(b, x, c, y, m), hd(c2, y) == hd(c, y), odata(c2, y) == odata(c, y), !m.contains_key(a),
    ensures same_object(b, x, c2, y, m.insert(a, d)),
{
    if hd(b, x).ptrs != 0 {
        assert forall|f: int| 0 <= f < nf(b, x) implies same_field(b, x, c2, y, m.insert(a, d), #[trigger] fval(c2, y, f), f) by {
            assert(same_field(b, x, c, y, m, fval(c, y, f), f));
        }
    }
}

proof fn root_kept(b0: Seq<u8>, b1: Seq<u8>, at: int, s: Seq<int>, roots: Seq<int>, kept: Seq<Addr>, i: int)
    requires scanned(b0, b1, at, s, roots, kept, s.len() as int), rooted(roots, s), 0 <= i < roots.len(),
    ensures holds(kept, roots[i]),
{
    assert(s.contains(roots[i]));
    let j = choose|j: int| 0 <= j < s.len() && s[j] == roots[i];
    assert(scan_ok(b0, b1, s, roots, kept, s.len() as int, j, s[j]));
    assert(roots.contains(s[j]));
}
/// what a collection does: every object still reachable has its copy, to which every reference
/// and every root now leads; what is not reachable is gone
#[verifier::prophetic]
spec fn collected(h0: Heap, h1: Heap, roots: Seq<&mut Addr>) -> bool {
    exists|s0: Seq<int>, s1: Seq<int>, m: Map<int, int>| #[trigger] preserved(h0, h1, roots, s0, s1, m)
}
#[verifier::prophetic]
spec fn relocated(roots: Seq<&mut Addr>, i: int, m: Map<int, int>) -> bool { m.contains_key(roots[i].0 as int) && (*final(roots[i])).0 == m[roots[i].0 as int] }
#[verifier::prophetic]
spec fn preserved(h0: Heap, h1: Heap, roots: Seq<&mut Addr>, s0: Seq<int>, s1: Seq<int>, m: Map<int, int>) -> bool {
    &&& h0.ok(s0) && h1.ok(s1)
    &&& same_graph(h0.b(), s0, h1.b(), s1, m)
    &&& forall|i: int| 0 <= i < roots.len() ==> #[trigger] relocated(roots, i, m)
    // no garbage
    &&& forall|c: int| s1.contains(c) ==> exists|a: int| #[trigger] m.contains_key(a) && m[a] == c
    &&& forall|a: int| #[trigger] m.contains_key(a) ==> values(roots).contains(a) || exists|r: int| #[trigger] m.contains_key(r) && refers(h0.b(), r, nf(h0.b(), r), a)
}
proof fn no_garbage(b0: Seq<u8>, b2: Seq<u8>, b3: Seq<u8>, kept: Seq<Addr>, s: Seq<int>, roots: Seq<int>, dst: Seq<int>, m: Map<int, int>, bump: int)
    requires
        moved(b2, kept, 0, b3, bump, dst, m),
        forall|k: int| 0 <= k < kept.len() ==> wanted(b0, roots, kept, (#[trigger] kept[k]).0 as int),
    ensures
        forall|c: int| dst.contains(c) ==> exists|a: int| #[trigger] m.contains_key(a) && m[a] == c,
        forall|a: int| #[trigger] m.contains_key(a) ==> roots.contains(a) || exists|r: int| #[trigger] m.contains_key(r) && refers(b0, r, nf(b0, r), a),
{
    assert forall|c: int| dst.contains(c) implies exists|a: int| #[trigger] m.contains_key(a) && m[a] == c by {
        let k = choose|k: int| 0 <= k < dst.len() && dst[k] == c;
        assert(moved_at(b2, kept, 0, b3, dst, m, k));
        assert(m.contains_key(kept[k].0 as int));
    }
    assert forall|a: int| #[trigger] m.contains_key(a) implies roots.contains(a) || exists|r: int| #[trigger] m.contains_key(r) && refers(b0, r, nf(b0, r), a) by {
        let k = choose|k: int| 0 <= k < kept.len() && (#[trigger] kept[k]).0 == a;
        assert(wanted(b0, roots, kept, kept[k].0 as int));
        if !roots.contains(a) {
            let l = choose|l: int| 0 <= l < kept.len() && refers(b0, (#[trigger] kept[l]).0 as int, nf(b0, kept[l].0 as int), a);
            assert(moved_at(b2, kept, 0, b3, dst, m, l));
            assert(m.contains_key(kept[l].0 as int));
        }
    }
}
proof fn same_after(b0: Seq<u8>, b2: Seq<u8>, b3: Seq<u8>, kept: Seq<Addr>, s: Seq<int>, dst: Seq<int>, m: Map<int, int>, bump: int)
    requires
        moved(b2, kept, 0, b3, bump, dst, m),
        forall|k: int| 0 <= k < kept.len() ==> s.contains((#[trigger] kept[k]).0 as int) && but_mark(b0, b2, kept[k].0 as int),
    ensures same_graph(b0, s, b3, dst, m),
{
    assert forall|a: int| #[trigger] m.contains_key(a) implies s.contains(a) && dst.contains(m[a]) && same_object(b0, a, b3, m[a], m) by {
        let k = choose|k: int| 0 <= k < kept.len() && (#[trigger] kept[k]).0 == a;
        assert(moved_at(b2, kept, 0, b3, dst, m, k));
        if hd(b0, a).ptrs != 0 {
            assert forall|f: int| 0 <= f < nf(b0, a) implies same_field(b0, a, b3, m[a], m, #[trigger] fval(b3, m[a], f), f) by {
                assert(same_field(b2, a, b3, m[a], m, fval(b3, m[a], f), f));
            }
        }
    }
    assert forall|a: int, c: int| #[trigger] m.contains_key(a) && #[trigger] m.contains_key(c) && m[a] == m[c] implies a == c by {
        let k = choose|k: int| 0 <= k < kept.len() && (#[trigger] kept[k]).0 == a;
        let l = choose|l: int| 0 <= l < kept.len() && (#[trigger] kept[l]).0 == c;
        assert(moved_at(b2, kept, 0, b3, dst, m, k));
        assert(moved_at(b2, kept, 0, b3, dst, m, l));
        if k < l { order(b3, bump, dst, k, l); }
        if l < k { order(b3, bump, dst, l, k); }
    }
}
proof fn scan_start(b0: Seq<u8>, b: Seq<u8>, at: int, s: Seq<int>, roots: Seq<int>)
    requires tiles(b0, at, s), but_marks(b0, b, s),
        forall|i: int| 0 <= i < s.len() ==> ((hd(b, #[trigger] s[i]).mark != 0) <==> exists|j: int| 0 <= j < roots.len() && #[trigger] roots[j] == s[i]),
    ensures scanned(b0, b, at, s, roots, Seq::empty(), 0), place(b0, s, 0) == at,
{
    let none = Seq::<Addr>::empty();
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] scan_ok(b0, b, s, roots, none, 0, i, s[i]) by {
        if roots.contains(s[i]) { let j = choose|j: int| 0 <= j < roots.len() && roots[j] == s[i]; assert(roots[j] == s[i]); }
    }
    assert(tot(b0, none, 0) == 0);
}
proof fn moved_start(b: Seq<u8>, kept: Seq<Addr>)
    requires b.len() % 8 == 0,
    ensures moved(b, kept, kept.len() as int, b, b.len() as int, Seq::empty(), Map::empty()),
{
}
proof fn copied(c: Seq<u8>, c1: Seq<u8>, a: int, d: int)
    requires fits(c, a), 0 <= d, d + osize(c, a) <= c1.len(), c1.subrange(d, d + osize(c, a)) =~= c.subrange(a, a + osize(c, a)),
    ensures hd(c1, d) == hd(c, a), odata(c1, d) == odata(c, a),
{
    let sz = osize(c, a);
    assert(c1.subrange(d, d + 24) =~= c1.subrange(d, d + sz).subrange(0, 24));
    assert(c.subrange(a, a + 24) =~= c.subrange(a, a + sz).subrange(0, 24));
    assert(odata(c1, d) =~= c1.subrange(d, d + sz).subrange(24, sz));
    assert(odata(c, a) =~= c.subrange(a, a + sz).subrange(24, sz));
}
proof fn table_set(b: Seq<u8>, kept: Seq<Addr>, j: int, mv: Seq<Addr>, mv1: Seq<Addr>, dst: Seq<int>, d: int)
    requires
        settled(b, kept), dst.len() == kept.len() - j, 0 < j <= kept.len(), mv1.len() == mv.len() >= b.len() / 24, 0 <= d <= u64::MAX,
        mv1 == mv.update(kept[j - 1].0 as int / 24, Addr(d as u64)),
        forall|k: int| j <= k < kept.len() ==> sent(mv, (#[trigger] kept[k]).0 as int) == dst[k - j],
    ensures
        forall|k: int| j <= k < kept.len() ==> sent(mv1, (#[trigger] kept[k]).0 as int) == dst[k - j],
        sent(mv1, kept[j - 1].0 as int) == d,
        forall|k: int| j - 1 <= k < kept.len() ==> sent(mv1, (#[trigger] kept[k]).0 as int) == (seq![d] + dst)[k - (j - 1)],
{
    assert(settled_at(b, kept, j - 1));
    assert forall|k: int| j <= k < kept.len() implies sent(mv1, (#[trigger] kept[k]).0 as int) == dst[k - j] by {
        kept_apart(b, kept, j - 1, k);
        assert(settled_at(b, kept, k));
    }
    assert forall|k: int| j - 1 <= k < kept.len() implies sent(mv1, (#[trigger] kept[k]).0 as int) == (seq![d] + dst)[k - (j - 1)] by {
        if k >= j { assert(sent(mv1, kept[k].0 as int) == dst[k - j]); }
    }
}
proof fn roots_forward(b0: Seq<u8>, b1: Seq<u8>, b2: Seq<u8>, b3: Seq<u8>, at: int, s: Seq<int>, roots: Seq<int>, kept: Seq<Addr>, bump: int, dst: Seq<int>, m: Map<int, int>, mv: Seq<Addr>)
    requires
        scanned(b0, b1, at, s, roots, kept, s.len() as int), rooted(roots, s),
        settled(b2, kept), moved(b2, kept, 0, b3, bump, dst, m), mv.len() >= b2.len() / 24,
        forall|k: int| 0 <= k < kept.len() ==> sent(mv, (#[trigger] kept[k]).0 as int) == dst[k],
    ensures forall|i: int| 0 <= i < roots.len() ==> forwards_at(mv, m, #[trigger] roots[i]),
{
    assert forall|i: int| 0 <= i < roots.len() implies forwards_at(mv, m, #[trigger] roots[i]) by {
        root_kept(b0, b1, at, s, roots, kept, i);
        let k = choose|k: int| 0 <= k < kept.len() && (#[trigger] kept[k]).0 == roots[i];
        assert(moved_at(b2, kept, 0, b3, dst, m, k));
        assert(settled_at(b2, kept, k));
        assert(sent(mv, kept[k].0 as int) == dst[k]);
    }
}
impl Heap {
//@ fn ticc-eval/src/heap.rs Heap::collect_inner
//@ rule impl Iterator < Item = & 'a mut Addr > ==> Roots < 'a >
//@ rule roots . collect :: < Vec < _ > > ( ) ==> roots . vx_collect ( )
//@ rule pending . drain ( .. ) ==> vx_drain ( & mut pending )
//@ rule pending . extend ( fields . iter ( ) . copied ( ) ) ==> pending . extend_from_slice ( fields )
//@ rule fields . into_iter ( ) ==> fields . iter_mut ( )
    requires exists|s: Seq<int>| old(self).ok(s) && rooted(values(roots.cells()), s),
        old(self).b().len() - old(self).bump + ensure_free <= u32::MAX,
    ensures collected(*old(self), *final(self), roots.cells()), final(self).bump >= ensure_free,
        final(self).b().len() - final(self).bump <= old(self).b().len() - old(self).bump,
//@ attr
#[verifier::rlimit(100)]
//@ head
    hide(tiles);
    let ghost b0 = self.b();
    let ghost cells = values(roots.cells());
    let ghost rc = roots.cells();
    let ghost s = choose|s: Seq<int>| self.ok(s) && rooted(cells, s);
    let ghost n = s.len() as int;
    let ghost mv0 = self.move_dst@;
    let ghost at = self.bump as int;
    let ghost none = Seq::<Addr>::empty();
    let ghost mut kk: int = 0;
    proof {
        assert forall|i: int| 0 <= i < n implies hd(b0, #[trigger] s[i]).mark == 0 by { }
    }
//@ loop 0
    invariant
        rooted(cells, s),
        vx_it0.seq().len() == cells.len(), forall|j: int| 0 <= j < cells.len() ==> (**#[trigger] vx_it0.seq()[j]).0 == cells[j],
        self.bytes.raw.raw@.len() * 8 == b0.len(), self.bump == at, self.move_dst@ == mv0,
        b0.len() < 0x1000_0000_0000_0000, tiles(b0, at, s), refs_ok(b0, s), n == s.len(),
        but_marks(b0, self.b(), s),
        forall|i: int| 0 <= i < n ==> ((hd(self.b(), #[trigger] s[i]).mark != 0) <==> exists|j: int| 0 <= j < vx_it0.index() && #[trigger] cells[j] == s[i]),
//@ loophead 0
    let ghost b1 = self.b();
    let ghost jj = vx_it0.index();
    let ghost k = choose|k: int| 0 <= k < n && s[k] == cells[jj];
    proof {
        assert(s.contains(cells[jj]));
        tile_at(b0, at, s, k);
    }
//@ looptail 0
    proof {
        mark_head(b0, b1, self.b(), at, s, k, 1);
        assert forall|i: int| 0 <= i < n implies ((hd(self.b(), #[trigger] s[i]).mark != 0) <==> exists|j: int| 0 <= j < jj + 1 && #[trigger] cells[j] == s[i]) by {
            if i == k { assert(cells[jj] == s[i]); }
            else {
                if s[i] == s[k] { if i < k { order(b0, at, s, i, k); } else { order(b0, at, s, k, i); } }
            }
        }
    }
//@ after let mut current
    proof { scan_start(b0, self.b(), at, s, cells); }
//@ loop 1
    invariant
        self.bytes.raw.raw@.len() * 8 == b0.len(), self.bump == at, self.move_dst@ == mv0,
        b0.len() < 0x1000_0000_0000_0000, tiles(b0, at, s), refs_ok(b0, s), n == s.len(),
        scanned(b0, self.b(), at, s, cells, retained@, kk),
        current.0 == place(b0, s, kk),
        retained_bytes == tot(b0, retained@, retained@.len() as int),
        pending@.len() == 0, b0.len() - at + ensure_free <= u32::MAX,
    decreases n - kk,
//@ loophead 1
    let ghost b1 = self.b();
    let ghost kept = retained@;
    proof {
        assert(kk < n);
        order(b0, at, s, kk, kk + 1);
        tile_at(b0, at, s, kk);
        assert(but_mark(b0, b1, s[kk]));
    }
    let ghost cur = s[kk];
//@ before continue
    proof {
        mark_one(b0, b1, self.b(), at, s, kk, 0);
        scan_skip(b0, b1, self.b(), at, s, cells, kept, kk);
        kk = kk + 1;
    }
//@ after retained . push
    proof {
        assert(scan_ok(b0, b1, s, cells, kept, kk, kk, cur));
        assert(tot(b0, retained@, retained@.len() as int) == tot(b0, kept, kept.len() as int) + osize(b0, cur)) by { tot_ext(b0, kept, retained@, kept.len() as int); }
    }
//@ after pending . extend
    proof { visit_start(b0, b1, self.b(), at, s, cells, kept, kk, 0); }
//@ loop 2
    invariant
        self.bytes.raw.raw@.len() * 8 == b0.len(), self.bump == at, self.move_dst@ == mv0,
        b0.len() < 0x1000_0000_0000_0000, tiles(b0, at, s), refs_ok(b0, s), n == s.len(),
        0 <= kk < n, cur == s[kk], ptrs == hd(b0, cur).ptrs, ptrs != 0,
        visiting(b0, self.b(), s, cells, kept, kk, vx_it2.index()),
        vx_n2 == vx_it2.index(), vx_it2.seq().len() == nf(b0, cur), forall|f: int| 0 <= f < nf(b0, cur) ==> #[trigger] vx_it2.seq()[f] == fval(b0, cur, f),
        pending@.len() == 0,
//@ loophead 2
    let ghost f = vx_it2.index();
    let ghost b2 = self.b();
    proof {
        assert(obj_refs_ok(b0, s, cur));
        assert(vx_it2.seq()[f] == fval(b0, cur, f));
        if is_ptr(b0, cur, f) {
            let k = choose|k: int| 0 <= k < n && s[k] == fval(b0, cur, f);
            tile_at(b0, at, s, k);
        }
    }
//@ looptail 2
    proof { visit_step(b0, b2, self.b(), at, s, cells, kept, kk, f); }
//@ looptail 1
    proof {
        if hd(b0, cur).ptrs == 0 { visit_start(b0, b1, self.b(), at, s, cells, kept, kk, nf(b0, cur)); }
        scan_keep(b0, b1, self.b(), at, s, cells, kept, Addr(cur as u64), kk);
        kk = kk + 1;
    }
//@ before let min_capacity
    let ghost b1 = self.b();
    let ghost kept = retained@;
    let ghost kn = retained@.len() as int;
    proof { if kk < n { tile_at(b0, at, s, kk); } else { } }
//@ after let mut new_bump
    let ghost b2 = self.b();
    let ghost mut dst = Seq::<int>::empty();
    let ghost mut m = Map::<int, int>::empty();
    let ghost mut j = kn;
    proof {
        assert(b2.subrange(0, b1.len() as int) =~= b1);
        settle(b0, b1, b2, at, s, cells, kept);
        moved_start(b2, kept);
    }
//@ loop 3
    invariant
        self.bytes.raw.raw@.len() * 8 == b2.len(), self.bump == at, self.move_dst@.len() >= b2.len() / 24, b2.len() < 0x1000_0000_0000_0000,
        settled(b2, kept), kn == kept.len(), kn > 0 ==> kept[kn - 1].0 + osize(b2, kept[kn - 1].0 as int) <= b2.len(),
        vx_it3.seq().len() == kn, forall|i: int| 0 <= i < kn ==> #[trigger] vx_it3.seq()[i] == kept[kn - 1 - i],
        j == kn - vx_it3.index(),
        moved(b2, kept, j, self.b(), new_bump as int, dst, m),
        forall|k: int| j <= k < kn ==> sent(self.move_dst@, (#[trigger] kept[k]).0 as int) == dst[k - j],
//@ loophead 3
    let ghost c = self.b();
    let ghost a = addr.0 as int;
    let ghost bump = new_bump as int;
    let ghost mv = self.move_dst@;
    proof {
        assert(addr == kept[j - 1]);
        assert(settled_at(b2, kept, j - 1));
        keep(b2, c, a);
        bump_in(c, bump, dst);
    }
    let ghost sz = osize(b2, a);
    let ghost d = bump - sz;
    proof { assert(a <= d) by { if j < kn { kept_apart(b2, kept, j - 1, j); } } }
//@ after self . move_dst [ ( addr . 0 / u64 :: from ( Header :: SIZE ) ) as usize ]
    let ghost c1 = self.b();
    let ghost mv1 = self.move_dst@;
    proof {
        copied(c, c1, a, d);
        table_set(b2, kept, j, mv, mv1, dst, d);
        if hd(b2, a).ptrs != 0 { forward(b2, kept, j, c, bump, dst, m, mv1); }
    }
//@ loop 4
    invariant
        vx_it4.seq().len() == nf(b2, a), vx_n4 == vx_it4.index(),
        forall|t: int| 0 <= t < nf(b2, a) ==> *(#[trigger] vx_it4.seq()[t]) == fval(b2, a, t),
        forall|t: int| 0 <= t < vx_it4.index() ==> same_field(b2, a, b2, a, m, *final(#[trigger] vx_it4.seq()[t]) as int, t),
        self.move_dst@ == mv1, *header == hd(b2, a), nf(b2, a) <= 64, forwards(b2, a, mv1, m),
//@ loophead 4
    let ghost t = vx_it4.index();
    proof {
        assert(*vx_it4.seq()[t] == fval(b2, a, t));
        assert(is_ptr(b2, a, t) ==> forwards_at(mv1, m, fval(b2, a, t)));
    }
//@ looptail 3
    proof {
        let c2 = self.b();
        if hd(b2, a).ptrs != 0 {
            assert forall|f: int| 0 <= f < nf(b2, a) implies same_field(b2, a, c2, d, m, #[trigger] fval(c2, d, f), f) by {
                assert(same_field(b2, a, b2, a, m, fval(c2, d, f), f));
            }
        }
        move_one(b2, kept, j, c, bump, dst, m, c2);
        dst = seq![d] + dst;
        m = m.insert(a, d);
        j = j - 1;
    }
//@ after for addr in
    let ghost b3 = self.b();
    proof {
        roots_forward(b0, b1, b2, b3, at, s, cells, kept, new_bump as int, dst, m, self.move_dst@);
    }
//@ loop 5
    invariant
        vx_it5.seq().len() == cells.len(), cells == values(rc),
        forall|i: int| 0 <= i < cells.len() ==> forwards_at(self.move_dst@, m, #[trigger] cells[i]),
        forall|i: int| 0 <= i < vx_it5.index() ==> #[trigger] relocated(rc, i, m),
        vx_it5.seq() == rc,
//@ loophead 5
    proof { assert(cells[vx_it5.index()] == rc[vx_it5.index()].0); }
//@ after self . bump = new_bump
    proof {
        same_after(b0, b2, self.b(), kept, s, dst, m, new_bump as int);
        no_garbage(b0, b2, self.b(), kept, s, cells, dst, m, new_bump as int);
        assert(self.ok(dst));
        assert forall|i: int| 0 <= i < rc.len() implies #[trigger] relocated(rc, i, m) by { }
        assert(preserved(*old(self), *self, rc, s, dst, m));
    }
//@ end
//@ fn ticc-eval/src/heap.rs Heap::collect_and_grow
//@ rule impl Iterator < Item = & 'a mut Addr > ==> Roots < 'a >
    requires exists|s: Seq<int>| old(self).ok(s) && rooted(values(roots.cells()), s),
        old(self).b().len() - old(self).bump + ensure_free <= u32::MAX,
    ensures collected(*old(self), *final(self), roots.cells()), final(self).bump >= ensure_free,
        final(self).b().len() - final(self).bump <= old(self).b().len() - old(self).bump,
//@ end
//@ fn ticc-eval/src/heap.rs Heap::collect
//@ rule impl Iterator < Item = & 'a mut Addr > ==> Roots < 'a >
    requires exists|s: Seq<int>| old(self).ok(s) && rooted(values(roots.cells()), s),
        old(self).b().len() - old(self).bump <= u32::MAX,
    ensures collected(*old(self), *final(self), roots.cells()),
        final(self).b().len() - final(self).bump <= old(self).b().len() - old(self).bump,
//@ end
//@ fn ticc-eval/src/heap.rs Heap::obj_with_bytes
//@ ret r
    requires exists|s: Seq<int>| self.ok(s) && s.contains(addr.0 as int),
    ensures r.0 == hd(self.b(), addr.0 as int).tag, r.1@ == odata(self.b(), addr.0 as int),
//@ head
    proof { let s = choose|s: Seq<int>| self.ok(s) && s.contains(addr.0 as int); let k = choose|k: int| 0 <= k < s.len() && s[k] == addr.0; assert(tile(self.b(), s, s[k], k)); }
//@ end
}

// ---- the collector's caller: the bytecode machine
//@ type ticc-eval/src/bytecode.rs Stack
//@ type ticc-eval/src/bytecode.rs Bools
//@ type ticc-eval/src/bytecode.rs Runtime
#[verifier::external_body]
struct Op { x: u8 }
#[verifier::external_body]
struct CtorTags { x: u8 }

impl<'a> Roots<'a> {
    #[verifier::external_body]
    fn vx_of(v: Vec<&'a mut Addr>) -> (r: Self) ensures r.cells() == v@ { unimplemented!() }
    #[verifier::external_body]
    fn chain(self, o: Roots<'a>) -> (r: Self) ensures r.cells() == self.cells() + o.cells() { unimplemented!() }
    fn vx_once(x: &'a mut Addr) -> (r: Self) ensures r.cells() == seq![x] {
        let mut v = Vec::new();
        v.push(x);
        Roots::vx_of(v)
    }
}
#[verifier::prophetic]
spec fn same_ref(a: Seq<&mut Addr>, b: Seq<&mut Addr>, i: int) -> bool { *a[i] == *b[i] && *final(a[i]) == *final(b[i]) }
fn vx_same<'a>(r: Roots<'a>) -> (q: Roots<'a>) ensures q == r { r }
/// `iter_mut()` on the constants
fn vx_cells<'a>(v: &'a mut Vec<Addr>) -> (r: Roots<'a>)
    ensures r.cells().len() == old(v)@.len() == final(v)@.len(),
        forall|i: int| 0 <= i < old(v)@.len() ==> #[trigger] const_now(old(v)@, r.cells()[i], i),
        forall|i: int| 0 <= i < old(v)@.len() ==> #[trigger] const_cell(old(v)@, final(v)@, r.cells()[i], i),
{
    let mut out: Vec<&'a mut Addr> = Vec::new();
    let ghost v0 = v@;
    let w = v.iter_mut();
    let ghost sq = vstd::std_specs::iter::IteratorSpec::remaining(&w);
    for x in it: w
        invariant out@.len() == it.index(), it.seq() == sq,
            forall|i: int| 0 <= i < out@.len() ==> #[trigger] same_ref(out@, sq, i),
    {
        let ghost o = out@;
        let ghost k = it.index();
        out.push(x);
        proof {
            assert(same_ref(out@, sq, k));
            assert forall|i: int| 0 <= i < out@.len() implies #[trigger] same_ref(out@, sq, i) by { if i < k { assert(same_ref(o, sq, i)); } }
        }
    }
    proof {
        assert(forall|i: int| 0 <= i < out@.len() ==> #[trigger] same_ref(out@, sq, i));
        assert(out@.len() == v0.len());
        assert forall|i: int| 0 <= i < v0.len() implies *out@[i] == #[trigger] v0[i] by { assert(same_ref(out@, sq, i)); }
        assert forall|i: int| 0 <= i < v0.len() implies *final(out@[i]) == #[trigger] final(v)@[i] by { assert(same_ref(out@, sq, i)); assert(*final(out@[i]) == *final(sq[i])); assert(*final(sq[i]) == final(v)@[i]); }
    }
    Roots::vx_of(out)
}

/// positions of the references among the first n values
spec fn refs_at(v: Seq<Value>, n: int) -> Seq<int> decreases n {
    if n <= 0 { seq![] } else if v[n - 1] is Ptr { refs_at(v, n - 1).push(n - 1) } else { refs_at(v, n - 1) }
}
proof fn refs_at_in(v: Seq<Value>, n: int, j: int)
    requires 0 <= n <= v.len(), 0 <= j < refs_at(v, n).len(),
    ensures 0 <= refs_at(v, n)[j] < n, v[refs_at(v, n)[j]] is Ptr,
    decreases n,
{
    if n > 0 { if v[n - 1] is Ptr && j == refs_at(v, n).len() - 1 { } else { refs_at_in(v, n - 1, j); } }
}
proof fn refs_at_all(v: Seq<Value>, n: int, i: int)
    requires 0 <= i < n <= v.len(), v[i] is Ptr,
    ensures exists|j: int| 0 <= j < refs_at(v, n).len() && #[trigger] refs_at(v, n)[j] == i,
    decreases n,
{
    let q = refs_at(v, n);
    if i == n - 1 { assert(q[q.len() - 1] == i); }
    else {
        refs_at_all(v, n - 1, i);
        let p = refs_at(v, n - 1);
        let j = choose|j: int| 0 <= j < p.len() && #[trigger] p[j] == i;
        assert(q[j] == i);
    }
}
/// cell j stands for the reference at place refs_at(v0, n)[j]
#[verifier::prophetic]
spec fn cell_of(v0: Seq<Value>, v1: Seq<Value>, n: int, x: &mut Addr, j: int) -> bool {
    let i = refs_at(v0, n)[j];
    v0[i] == Value::Ptr(*x) && v1[i] == Value::Ptr(*final(x))
}
spec fn cell_now(v0: Seq<Value>, n: int, x: &mut Addr, j: int) -> bool { v0[refs_at(v0, n)[j]] == Value::Ptr(*x) }
#[verifier::prophetic]
spec fn cell_of_seq(v0: Seq<Value>, sq: Seq<&mut Value>, n: int, cells: Seq<&mut Addr>, j: int) -> bool {
    let i = refs_at(v0, n)[j];
    v0[i] == Value::Ptr(*cells[j]) && *final(sq[i]) == Value::Ptr(*final(cells[j]))
}
#[verifier::prophetic]
spec fn int_kept(v0: Seq<Value>, sq: Seq<&mut Value>, i: int) -> bool { v0[i] is Int ==> *final(sq[i]) == v0[i] }

impl Stack {
//@ fn ticc-eval/src/bytecode.rs Stack::ptrs
//@ ret r
//@ rule impl Iterator < Item = & 'a mut Addr > + 'a ==> Roots < 'a >
//@ rule self . 0 . iter_mut ( ) . filter_map ( | $x:ident | $b:rest ) ==> { let ghost v0 = self.0@; let mut vx_out: Vec<&'a mut Addr> = Vec::new(); let vx_w = self.0.iter_mut(); let ghost sq = vstd::std_specs::iter::IteratorSpec::remaining(&vx_w); for $x in it: vx_w invariant it.seq() == sq, sq.len() == v0.len(), forall|i: int| 0 <= i < v0.len() ==> *sq[i] == #[trigger] v0[i], vx_out@.len() == refs_at(v0, it.index()).len(), forall|j: int| 0 <= j < vx_out@.len() ==> #[trigger] cell_of_seq(v0, sq, it.index(), vx_out@, j), forall|i: int| 0 <= i < it.index() ==> #[trigger] int_kept(v0, sq, i), { let ghost o = vx_out@; let ghost n = it.index(); let ghost x0 = *$x; let vx_r: Option<&'a mut Addr> = $b; match vx_r { None => {}, Some(y) => { vx_out.push(y); } } proof { assert(int_kept(v0, sq, n)); assert forall|j: int| 0 <= j < vx_out@.len() implies #[trigger] cell_of_seq(v0, sq, n + 1, vx_out@, j) by { if j < o.len() { assert(cell_of_seq(v0, sq, n, o, j)); refs_at_in(v0, n, j); } } } } proof { assert forall|j: int| 0 <= j < vx_out@.len() implies #[trigger] cell_of(v0, final(self).0@, v0.len() as int, vx_out@[j], j) by { assert(cell_of_seq(v0, sq, v0.len() as int, vx_out@, j)); refs_at_in(v0, v0.len() as int, j); assert(*final(sq[refs_at(v0, v0.len() as int)[j]]) == final(self).0@[refs_at(v0, v0.len() as int)[j]]); } assert forall|j: int| 0 <= j < vx_out@.len() implies #[trigger] cell_now(v0, v0.len() as int, vx_out@[j], j) by { assert(cell_of(v0, final(self).0@, v0.len() as int, vx_out@[j], j)); } assert forall|i: int| 0 <= i < v0.len() && v0[i] is Int implies #[trigger] final(self).0@[i] == v0[i] by { assert(int_kept(v0, sq, i)); assert(*final(sq[i]) == final(self).0@[i]); } } Roots::vx_of(vx_out) }
    ensures
        final(self).0@.len() == old(self).0@.len(),
        r.cells().len() == refs_at(old(self).0@, old(self).0@.len() as int).len(),
        forall|j: int| 0 <= j < r.cells().len() ==> #[trigger] cell_now(old(self).0@, old(self).0@.len() as int, r.cells()[j], j),
        forall|j: int| 0 <= j < r.cells().len() ==> #[trigger] cell_of(old(self).0@, final(self).0@, old(self).0@.len() as int, r.cells()[j], j),
        forall|i: int| 0 <= i < old(self).0@.len() && old(self).0@[i] is Int ==> #[trigger] final(self).0@[i] == old(self).0@[i],
//@ end
}

// ---- the machine
spec fn live(v: Value, s: Seq<int>) -> bool { match v { Value::Ptr(a) => s.contains(a.0 as int), Value::Int(_) => true } }
impl Runtime {
    /// everything the machine holds is an object of the heap
    spec fn ok(&self, s: Seq<int>) -> bool {
        &&& self.heap.ok(s)
        &&& forall|i: int| 0 <= i < self.stack.0@.len() ==> live(#[trigger] self.stack.0@[i], s)
        &&& forall|i: int| 0 <= i < self.consts@.len() ==> s.contains((#[trigger] self.consts@[i]).0 as int)
        &&& s.contains(self.bools.t.0 as int) && s.contains(self.bools.f.0 as int)
    }
    spec fn used(&self) -> int { self.heap.b().len() - self.heap.bump }
    spec fn good(&self) -> bool { exists|s: Seq<int>| self.ok(s) }
}
spec fn sent_value(v0: Value, v1: Value, m: Map<int, int>) -> bool {
    match v0 { Value::Int(_) => v1 == v0, Value::Ptr(a) => m.contains_key(a.0 as int) && v1 == Value::Ptr(Addr(m[a.0 as int] as u64)) && 0 <= m[a.0 as int] <= u64::MAX }
}
spec fn sent_addr(a: Addr, c: Addr, m: Map<int, int>) -> bool { m.contains_key(a.0 as int) && c.0 == m[a.0 as int] }
/// the machine r1 is the machine r0 with its objects moved by m
spec fn same_machine(r0: Runtime, r1: Runtime, s0: Seq<int>, s1: Seq<int>, m: Map<int, int>) -> bool {
    &&& r0.heap.ok(s0) && r1.ok(s1)
    &&& same_graph(r0.heap.b(), s0, r1.heap.b(), s1, m)
    &&& r1.stack.0@.len() == r0.stack.0@.len() && r1.consts@.len() == r0.consts@.len()
    &&& forall|i: int| 0 <= i < r0.stack.0@.len() ==> sent_value(#[trigger] r0.stack.0@[i], r1.stack.0@[i], m)
    &&& forall|i: int| 0 <= i < r0.consts@.len() ==> sent_addr(#[trigger] r0.consts@[i], r1.consts@[i], m)
    &&& sent_addr(r0.bools.t, r1.bools.t, m) && sent_addr(r0.bools.f, r1.bools.f, m)
    &&& r1.ops == r0.ops && r1.ctor_tags == r0.ctor_tags
}
spec fn unchanged(r0: Runtime, r1: Runtime) -> bool {
    exists|s0: Seq<int>, s1: Seq<int>, m: Map<int, int>| #[trigger] same_machine(r0, r1, s0, s1, m)
}

spec fn ident(s: Seq<int>) -> Map<int, int> { Map::new(s.to_set(), |a: int| a) }
proof fn stay(r: Runtime, s: Seq<int>)
    requires r.ok(s),
    ensures same_machine(r, r, s, s, ident(s)),
{
    let m = ident(s);
    let b = r.heap.b();
    assert forall|a: int| #[trigger] m.contains_key(a) implies s.contains(a) && s.contains(m[a]) && same_object(b, a, b, m[a], m) by {
        let k = choose|k: int| 0 <= k < s.len() && s[k] == a;
        assert(obj_refs_ok(b, s, s[k]));
        if hd(b, a).ptrs != 0 {
            assert forall|f: int| 0 <= f < nf(b, a) implies same_field(b, a, b, a, m, #[trigger] fval(b, a, f), f) by { }
        }
    }
    assert forall|i: int| 0 <= i < r.stack.0@.len() implies sent_value(#[trigger] r.stack.0@[i], r.stack.0@[i], m) by { assert(live(r.stack.0@[i], s)); }
}
/// the cells of the machine: stack, constants, the two booleans
#[verifier::prophetic]
spec fn roots_of(r0: Runtime, r1: Runtime, cells: Seq<&mut Addr>) -> bool {
    let n = r0.stack.0@.len() as int;
    let p = refs_at(r0.stack.0@, n).len() as int;
    let c = r0.consts@.len() as int;
    &&& r1.stack.0@.len() == n && r1.consts@.len() == c
    &&& cells.len() == p + c + 2
    &&& forall|j: int| 0 <= j < p ==> #[trigger] cell_of(r0.stack.0@, r1.stack.0@, n, cells[j], j)
    &&& forall|i: int| 0 <= i < n && r0.stack.0@[i] is Int ==> #[trigger] r1.stack.0@[i] == r0.stack.0@[i]
    &&& forall|i: int| 0 <= i < c ==> #[trigger] const_cell(r0.consts@, r1.consts@, cells[p + i], i)
    &&& *cells[p + c] == r0.bools.t && *final(cells[p + c]) == r1.bools.t
    &&& *cells[p + c + 1] == r0.bools.f && *final(cells[p + c + 1]) == r1.bools.f
}
#[verifier::prophetic]
spec fn const_cell(c0: Seq<Addr>, c1: Seq<Addr>, x: &mut Addr, i: int) -> bool {
    *x == c0[i] && *final(x) == c1[i]
}
spec fn roots_now(r0: Runtime, cells: Seq<&mut Addr>) -> bool {
    let n = r0.stack.0@.len() as int;
    let p = refs_at(r0.stack.0@, n).len() as int;
    let c = r0.consts@.len() as int;
    &&& cells.len() == p + c + 2
    &&& forall|j: int| 0 <= j < p ==> #[trigger] cell_now(r0.stack.0@, n, cells[j], j)
    &&& forall|i: int| 0 <= i < c ==> #[trigger] const_now(r0.consts@, cells[p + i], i)
    &&& *cells[p + c] == r0.bools.t
    &&& *cells[p + c + 1] == r0.bools.f
}
spec fn const_now(c0: Seq<Addr>, x: &mut Addr, i: int) -> bool { *x == c0[i] }
proof fn rooted_now(r0: Runtime, s: Seq<int>, cells: Seq<&mut Addr>)
    requires r0.ok(s), roots_now(r0, cells),
    ensures rooted(values(cells), s),
{
    let n = r0.stack.0@.len() as int;
    let p = refs_at(r0.stack.0@, n).len() as int;
    let c = r0.consts@.len() as int;
    assert forall|i: int| 0 <= i < cells.len() implies s.contains(#[trigger] values(cells)[i]) by {
        if i < p { assert(cell_now(r0.stack.0@, n, cells[i], i)); refs_at_in(r0.stack.0@, n, i); assert(live(r0.stack.0@[refs_at(r0.stack.0@, n)[i]], s)); }
        else if i < p + c { assert(const_now(r0.consts@, cells[p + (i - p)], i - p)); }
    }
}
proof fn moved_machine(r0: Runtime, r1: Runtime, cells: Seq<&mut Addr>)
    requires r0.good(), roots_now(r0, cells), roots_of(r0, r1, cells), collected(r0.heap, r1.heap, cells), r1.ops == r0.ops, r1.ctor_tags == r0.ctor_tags,
    ensures unchanged(r0, r1),
{
    let (s0, s1, m) = choose|s0: Seq<int>, s1: Seq<int>, m: Map<int, int>| #[trigger] preserved(r0.heap, r1.heap, cells, s0, s1, m);
    let v0 = r0.stack.0@;
    let n = v0.len() as int;
    let p = refs_at(v0, n).len() as int;
    let c = r0.consts@.len() as int;
    assert forall|i: int| 0 <= i < n implies sent_value(#[trigger] v0[i], r1.stack.0@[i], m) && live(r1.stack.0@[i], s1) by {
        if v0[i] is Ptr {
            refs_at_all(v0, n, i);
            let j = choose|j: int| 0 <= j < refs_at(v0, n).len() && #[trigger] refs_at(v0, n)[j] == i;
            assert(cell_of(v0, r1.stack.0@, n, cells[j], j));
            assert(relocated(cells, j, m));
        }
    }
    assert forall|i: int| 0 <= i < c implies sent_addr(#[trigger] r0.consts@[i], r1.consts@[i], m) && s1.contains(r1.consts@[i].0 as int) by {
        assert(const_cell(r0.consts@, r1.consts@, cells[p + i], i));
        assert(relocated(cells, p + i, m));
    }
    assert(relocated(cells, p + c, m));
    assert(relocated(cells, p + c + 1, m));
    assert forall|i: int| 0 <= i < r1.stack.0@.len() implies live(#[trigger] r1.stack.0@[i], s1) by { assert(sent_value(v0[i], r1.stack.0@[i], m)); }
    assert forall|i: int| 0 <= i < r1.consts@.len() implies s1.contains((#[trigger] r1.consts@[i]).0 as int) by { assert(sent_addr(r0.consts@[i], r1.consts@[i], m)); }
    assert(sent_addr(r0.bools.t, r1.bools.t, m));
    assert(same_machine(r0, r1, s0, s1, m));
}
impl Runtime {
//@ rule std :: iter :: once ( $x:rest ) ==> Roots :: vx_once ( $x )
//@ rule self . consts . iter_mut ( ) ==> vx_cells ( & mut self . consts )
//@ fn ticc-eval/src/bytecode.rs Runtime::reserve
    requires old(self).good(), bytes <= u32::MAX - 31, old(self).used() + 24 + up8(bytes as int) <= u32::MAX,
    ensures unchanged(*old(self), *final(self)), final(self).heap.bump >= 24 + up8(bytes as int), final(self).used() <= old(self).used(),
//@ rule self . heap . collect_and_grow ( $r , $n:rest ) ==> { let vx_roots = vx_same($r); let ghost vx_c = vx_roots.cells(); proof { rooted_now(r0, s, vx_c); } self.heap.collect_and_grow(vx_roots, $n); proof { moved_machine(r0, *self, vx_c); } }
//@ head
    let ghost s = choose|s: Seq<int>| self.ok(s);
    let ghost r0 = *self;
    proof { stay(r0, s); }
//@ end
//@ fn ticc-eval/src/bytecode.rs Runtime::gc
//@ rule self . heap . collect ( $r:rest ) ==> { let vx_roots = vx_same($r); let ghost vx_c = vx_roots.cells(); proof { rooted_now(r0, s, vx_c); } self.heap.collect(vx_roots); proof { moved_machine(r0, *self, vx_c); } }
    requires old(self).good(), old(self).used() <= u32::MAX,
    ensures unchanged(*old(self), *final(self)), final(self).used() <= old(self).used(),
//@ head
    let ghost s = choose|s: Seq<int>| self.ok(s);
    let ghost r0 = *self;
//@ end
//@ fn ticc-eval/src/bytecode.rs Runtime::maybe_gc
    requires old(self).good(), old(self).used() <= u32::MAX,
    ensures unchanged(*old(self), *final(self)), final(self).used() <= old(self).used(),
//@ head
    proof { stay(*self, choose|s: Seq<int>| self.ok(s)); }
//@ end
}

// ---- instructions that allocate or read objects
/// memory for one more object was taken below the objects, and holds a well-formed object
proof fn placed_ok(h0: Heap, h1: Heap, s: Seq<int>, n: int)
    requires
        h0.ok(s), placed(h0, h1, n), n >= 24, n % 8 == 0, hd(h1.b(), h1.bump as int).size == n, hd(h1.b(), h1.bump as int).mark == 0,
        obj_refs_ok(h1.b(), seq![h1.bump as int] + s, h1.bump as int),
    ensures h1.ok(seq![h1.bump as int] + s), kept_objects(h0, h1, s), !s.contains(h1.bump as int),
{
    let a = h1.bump as int;
    let t = seq![a] + s;
    let (b0, b1) = (h0.b(), h1.b());
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] kept_object(b0, b1, s[i]) && s[i] > a && s[i] >= h0.bump by {
        assert(tile(b0, s, s[i], i));
        if i > 0 { assert(tile(b0, s, s[0], 0)); assert(s[0] + osize(b0, s[0]) <= s[i]); }
        keep(b0, b1, s[i]);
    }
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] tile(b1, t, t[i], i) by {
        if i > 0 { assert(tile(b0, s, s[i - 1], i - 1)); assert(kept_object(b0, b1, s[i - 1])); }
        else if s.len() > 0 { assert(tile(b0, s, s[0], 0)); }
    }
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies #[trigger] t[i] + osize(b1, t[i]) <= #[trigger] t[j] by {
        assert(kept_object(b0, b1, s[j - 1]));
        if i > 0 { assert(kept_object(b0, b1, s[i - 1])); assert(s[i - 1] + osize(b0, s[i - 1]) <= s[j - 1]); }
    }
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] obj_refs_ok(b1, t, t[i]) by {
        if i > 0 {
            let x = s[i - 1];
            assert(kept_object(b0, b1, x));
            assert(obj_refs_ok(b0, s, x));
            if hd(b1, x).ptrs != 0 {
                assert forall|f: int| 0 <= f < nf(b1, x) && is_ptr(b1, x, f) implies t.contains(#[trigger] fval(b1, x, f)) && fval(b1, x, f) > x by {
                    assert(fval(b0, x, f) == fval(b1, x, f));
                    let k = choose|k: int| 0 <= k < s.len() && s[k] == fval(b0, x, f);
                    assert(t[k + 1] == fval(b1, x, f));
                }
            }
        }
    }
    assert forall|i: int| 0 <= i < t.len() implies hd(b1, #[trigger] t[i]).mark == 0 by { if i > 0 { assert(kept_object(b0, b1, s[i - 1])); } }
}
spec fn kept_object(b0: Seq<u8>, b1: Seq<u8>, a: int) -> bool { hd(b1, a) == hd(b0, a) && odata(b1, a) == odata(b0, a) }
/// the objects s are as they were
spec fn kept_objects(h0: Heap, h1: Heap, s: Seq<int>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] kept_object(h0.b(), h1.b(), s[i]) }
/// object a holds the values v
spec fn holds_values(b: Seq<u8>, a: int, v: Seq<Value>) -> bool {
    nf(b, a) == v.len() && forall|i: int| 0 <= i < v.len() ==> field_holds(b, a, i, #[trigger] v[i])
}
spec fn field_holds(b: Seq<u8>, a: int, i: int, v: Value) -> bool {
    match v {
        Value::Int(x) => (hd(b, a).ptrs == 0 || !is_ptr(b, a, i)) && fval(b, a, i) == x,
        Value::Ptr(p) => hd(b, a).ptrs != 0 && is_ptr(b, a, i) && fval(b, a, i) == p.0,
    }
}
/// k values were taken off the stack and a new object put there
spec fn pushed_new(r1: Runtime, r2: Runtime, s: Seq<int>, k: int) -> bool {
    let a = r2.heap.bump as int;
    let n = r1.stack.0@.len() as int;
    &&& r1.ok(s) && r2.ok(seq![a] + s) && !s.contains(a) && kept_objects(r1.heap, r2.heap, s)
    &&& r2.stack.0@ =~= r1.stack.0@.take(n - k).push(Value::Ptr(Addr(a as u64)))
    &&& r2.consts == r1.consts && r2.bools == r1.bools && r2.ops == r1.ops && r2.ctor_tags == r1.ctor_tags
}
spec fn constructs(r1: Runtime, r2: Runtime, s: Seq<int>, tag: u64, k: int) -> bool {
    let n = r1.stack.0@.len() as int;
    &&& pushed_new(r1, r2, s, k)
    &&& hd(r2.heap.b(), r2.heap.bump as int).tag == tag
    &&& holds_values(r2.heap.b(), r2.heap.bump as int, r1.stack.0@.subrange(n - k, n))
}
spec fn put_cell(p: u64, w: u64, v: Value, i: int) -> bool {
    match v { Value::Int(x) => !hasbit(p, i) && w == x, Value::Ptr(a) => p != 0 && hasbit(p, i) && w == a.0 }
}
/// fields lo.. are filled from the stack v
spec fn put(p: u64, w: Seq<u64>, v: Seq<Value>, lo: int) -> bool {
    &&& forall|i: int| lo <= i < w.len() ==> put_cell(p, #[trigger] w[i], v[v.len() - w.len() + i], i)
    &&& forall|j: int| 0 <= j < lo ==> !#[trigger] hasbit(p, j)
}
proof fn no_bits(n: int)
    requires 0 <= n <= 64,
    ensures forall|j: int| 0 <= j < n ==> !#[trigger] hasbit(0, j),
{
    assert forall|j: int| 0 <= j < n implies !#[trigger] hasbit(0, j) by { let k = j as usize; assert(0u64 & (1u64 << k) == 0) by (bit_vector) requires k < 64; }
}
/// the object just allocated and filled
proof fn built(r1: Runtime, r2: Runtime, s: Seq<int>, tag: u64, w: Seq<u64>)
    requires
        r1.ok(s), placed(r1.heap, r2.heap, 24 + 8 * w.len() as int), w.len() <= 64, r1.stack.0@.len() >= w.len(), r1.heap.bump >= 24 + 8 * w.len(),
        ({ let h = hd(r2.heap.b(), r2.heap.bump as int); h.size == 24 + 8 * w.len() && h.mark == 0 && h.tag == tag && put(h.ptrs, w, r1.stack.0@, 0) }),
        forall|i: int| 0 <= i < w.len() ==> #[trigger] w[i] == wordat(odata(r2.heap.b(), r2.heap.bump as int), i),
        r2.stack.0@ =~= r1.stack.0@.take(r1.stack.0@.len() - w.len()).push(Value::Ptr(Addr(r2.heap.bump as u64))),
        r2.consts == r1.consts, r2.bools == r1.bools, r2.ops == r1.ops, r2.ctor_tags == r1.ctor_tags,
    ensures constructs(r1, r2, s, tag, w.len() as int),
{
    let a = r2.heap.bump as int;
    let b = r2.heap.b();
    let v = r1.stack.0@;
    let k = w.len() as int;
    let n = v.len() as int;
    let t = seq![a] + s;
    let p = hd(b, a).ptrs;
    assert(obj_refs_ok(b, t, a)) by {
        if p != 0 {
            assert forall|f: int| 0 <= f < nf(b, a) && is_ptr(b, a, f) implies t.contains(#[trigger] fval(b, a, f)) && fval(b, a, f) > a by {
                assert(put_cell(p, w[f], v[n - k + f], f));
                assert(live(v[n - k + f], s));
                let x = fval(b, a, f);
                let q = choose|q: int| 0 <= q < s.len() && s[q] == x;
                assert(tile(r1.heap.b(), s, s[q], q));
                assert(t[q + 1] == x);
                if q > 0 { assert(tile(r1.heap.b(), s, s[0], 0)); assert(s[0] + osize(r1.heap.b(), s[0]) <= s[q]); }
            }
        }
    }
    placed_ok(r1.heap, r2.heap, s, 24 + 8 * k);
    grown(s, a);
    assert(holds_values(b, a, v.subrange(n - k, n))) by {
        assert forall|i: int| 0 <= i < k implies field_holds(b, a, i, #[trigger] v.subrange(n - k, n)[i]) by { assert(put_cell(p, w[i], v[n - k + i], i)); }
    }
    still_live(r1, r2, s, t, k);
}
proof fn grown(s: Seq<int>, a: int)
    ensures forall|x: int| s.contains(x) ==> #[trigger] (seq![a] + s).contains(x), (seq![a] + s).contains(a),
{
    let t = seq![a] + s;
    assert(t[0] == a);
    assert forall|x: int| s.contains(x) implies #[trigger] t.contains(x) by { let q = choose|q: int| 0 <= q < s.len() && s[q] == x; assert(t[q + 1] == x); }
}
proof fn still_live(r1: Runtime, r2: Runtime, s: Seq<int>, t: Seq<int>, k: int)
    requires r1.ok(s), r2.heap.ok(t), t == seq![r2.heap.bump as int] + s, 0 <= k <= r1.stack.0@.len(), r2.heap.bump <= u64::MAX,
        r2.stack.0@ =~= r1.stack.0@.take(r1.stack.0@.len() - k).push(Value::Ptr(Addr(r2.heap.bump as u64))),
        r2.consts == r1.consts, r2.bools == r1.bools,
    ensures r2.ok(t),
{
    grown(s, r2.heap.bump as int);
    assert forall|i: int| 0 <= i < r2.stack.0@.len() implies live(#[trigger] r2.stack.0@[i], t) by { if i < r1.stack.0@.len() - k { assert(live(r1.stack.0@[i], s)); } }
}
#[verifier::external_body]
fn vx_unwrap<T>(o: Option<T>) -> (r: T) ensures o == Some(r) { unimplemented!() }
impl Stack {
//@ rule self . 0 . pop ( ) . unwrap ( ) ==> vx_unwrap ( self . 0 . pop ( ) )
//@ rule unreachable ! ( ) ==> vx_stop ( )
//@ fn ticc-eval/src/bytecode.rs Stack::pop
//@ ret r
    ensures old(self).0@.len() > 0, r == old(self).0@.last(), final(self).0@ == old(self).0@.drop_last(),
//@ end
//@ fn ticc-eval/src/bytecode.rs Stack::pop_int
//@ ret r
    ensures old(self).0@.len() > 0, Value::Int(r) == old(self).0@.last(), final(self).0@ == old(self).0@.drop_last(),
//@ end
//@ fn ticc-eval/src/bytecode.rs Stack::pop_ptr
//@ ret r
    ensures old(self).0@.len() > 0, Value::Ptr(r) == old(self).0@.last(), final(self).0@ == old(self).0@.drop_last(),
//@ end
//@ fn ticc-eval/src/bytecode.rs Stack::push
    ensures final(self).0@ == old(self).0@.push(value),
//@ end
}
/// stops the machine
#[verifier::external_body]
fn vx_stop() -> ! ensures false { unimplemented!() }
impl Runtime {
//@ expr ticc-eval/src/bytecode.rs Runtime::run
//@ select self.ops[ip.0]
//@ armbody Op::Construct { tag, fields }
//@ params fn arm_construct(&mut self, tag: u64, fields: u32)
    requires old(self).good(), fields <= 64, old(self).used() + 24 + 8 * fields <= u32::MAX,
    ensures exists|r1: Runtime, r2: Runtime, s: Seq<int>| unchanged(*old(self), r1) && #[trigger] constructs(r1, r2, s, tag, fields as int) && unchanged(r2, *final(self)),
//@ after self . reserve
    let ghost r1 = *self;
    let ghost s = choose|s: Seq<int>| self.ok(s);
    let ghost v = self.stack.0@;
    let ghost n = v.len() as int;
    proof { no_bits(fields as int); }
//@ after let mut obj
    let ghost o0 = obj;
//@ loop 0
    invariant
        fields <= 64, obj.fields@.len() == fields, obj.addr == o0.addr, obj.header.size == 24 + 8 * fields, obj.header.mark == 0, obj.header.tag == tag,
        *final(obj.header) == *final(o0.header), final(obj.fields)@ == final(o0.fields)@,
        vx_it0.seq().len() == fields, forall|k: int| 0 <= k < fields ==> #[trigger] vx_it0.seq()[k] == fields - 1 - k,
        n == v.len(), n >= vx_it0.index(), self.stack.0@ =~= v.take(n - vx_it0.index()),
        put(obj.header.ptrs, obj.fields@, v, fields - vx_it0.index()),
//@ after self . stack . push
    proof { built(r1, *self, s, tag, obj.fields@); }
    let ghost r2 = *self;
//@ end
}

const STRING_TAG: u64 = 0x1_0000_0000_0000;
const TAG_MASK: u64 = 0xffff_ffff_ffff;
spec fn text_len(b: Seq<u8>, a: int) -> int { (hd(b, a).tag & TAG_MASK) as int }
/// the string an object stands for
spec fn text(b: Seq<u8>, a: int) -> Seq<u8> { odata(b, a).take(text_len(b, a)) }
/// k values were taken off the stack
spec fn dropped(r0: Runtime, r1: Runtime, k: int) -> bool {
    &&& r0.stack.0@.len() >= k && r1.stack.0@ =~= r0.stack.0@.take(r0.stack.0@.len() - k)
    &&& r1.heap == r0.heap && r1.consts == r0.consts && r1.bools == r0.bools && r1.ops == r0.ops && r1.ctor_tags == r0.ctor_tags
}
spec fn pushes_text(r1: Runtime, r2: Runtime, s: Seq<int>, w: Seq<u8>) -> bool {
    let a = r2.heap.bump as int;
    &&& pushed_new(r1, r2, s, 0)
    &&& text(r2.heap.b(), a) =~= w && hd(r2.heap.b(), a).ptrs == 0 && hd(r2.heap.b(), a).tag == (w.len() as u64 | STRING_TAG)
}
/// k values were replaced by the string w, with collections at any point
spec fn gives_text(r: Runtime, q: Runtime, k: int, w: Seq<u8>) -> bool {
    exists|r0: Runtime, r1: Runtime, r2: Runtime, s: Seq<int>| #[trigger] text_steps(r, r0, r1, r2, q, s, k, w)
}
spec fn text_steps(r: Runtime, r0: Runtime, r1: Runtime, r2: Runtime, q: Runtime, s: Seq<int>, k: int, w: Seq<u8>) -> bool {
    dropped(r, r0, k) && unchanged(r0, r1) && pushes_text(r1, r2, s, w) && unchanged(r2, q)
}
/// an object the machine holds
proof fn held(r: Runtime, i: int)
    requires r.good(), 0 <= i < r.stack.0@.len(),
    ensures r.stack.0@[i] is Ptr ==> (exists|s: Seq<int>| r.ok(s) && #[trigger] s.contains(ptr_val(r.stack.0@[i]))) && odata(r.heap.b(), ptr_val(r.stack.0@[i])).len() <= r.used(),
{
    let s = choose|s: Seq<int>| r.ok(s);
    assert(live(r.stack.0@[i], s));
    if r.stack.0@[i] is Ptr {
        let a = ptr_val(r.stack.0@[i]);
        let b = r.heap.b();
        let k = choose|k: int| 0 <= k < s.len() && s[k] == a;
        assert(tile(b, s, s[k], k));
        if k > 0 { assert(tile(b, s, s[0], 0)); assert(s[0] + osize(b, s[0]) <= s[k]); }
        assert(r.ok(s) && s.contains(a));
    }
}
spec fn word_val(v: Value) -> int { v->Int_0 as int }
spec fn ptr_val(v: Value) -> int { v->Ptr_0.0 as int }
/// the i-th value from the top
spec fn top(r: Runtime, i: int) -> Value { r.stack.0@[r.stack.0@.len() - 1 - i] }
proof fn dropped_ok(r0: Runtime, r1: Runtime, k: int)
    requires dropped(r0, r1, k), r0.good(), 0 <= k,
    ensures r1.good(),
{
    let s = choose|s: Seq<int>| r0.ok(s);
    assert forall|i: int| 0 <= i < r1.stack.0@.len() implies live(#[trigger] r1.stack.0@[i], s) by { assert(live(r0.stack.0@[i], s)); }
    assert(r1.ok(s));
}
proof fn text_tag(n: u64)
    requires n <= u32::MAX,
    ensures (n | STRING_TAG) & TAG_MASK == n,
{
    assert((n | 0x1_0000_0000_0000u64) & 0xffff_ffff_ffffu64 == n) by (bit_vector) requires n <= 0xffff_ffffu64;
}
/// the byte object just allocated and filled
proof fn built_text(r1: Runtime, r2: Runtime, s: Seq<int>, w: Seq<u8>)
    requires
        r1.ok(s), w.len() <= u32::MAX, placed(r1.heap, r2.heap, 24 + up8(w.len() as int)), r1.heap.bump >= 24 + up8(w.len() as int),
        hd(r2.heap.b(), r2.heap.bump as int) == (Header { size: (24 + up8(w.len() as int)) as u32, mark: 0, ptrs: 0, tag: w.len() as u64 | STRING_TAG }),
        24 + up8(w.len() as int) <= u32::MAX,
        odata(r2.heap.b(), r2.heap.bump as int).take(w.len() as int) =~= w,
        r2.stack.0@ =~= r1.stack.0@.push(Value::Ptr(Addr(r2.heap.bump as u64))),
        r2.consts == r1.consts, r2.bools == r1.bools, r2.ops == r1.ops, r2.ctor_tags == r1.ctor_tags,
    ensures pushes_text(r1, r2, s, w), r2.good(), r2.used() == r1.used() + 24 + up8(w.len() as int),
{
    let a = r2.heap.bump as int;
    let t = seq![a] + s;
    assert(obj_refs_ok(r2.heap.b(), t, a));
    placed_ok(r1.heap, r2.heap, s, 24 + up8(w.len() as int));
    assert(r1.stack.0@.take(r1.stack.0@.len() as int) =~= r1.stack.0@);
    still_live(r1, r2, s, t, 0);
    text_tag(w.len() as u64);
    assert(r2.ok(t));
}
#[verifier::external_body]
fn vx_prefix(b: &[u8], n: usize) -> (r: &[u8]) ensures n <= b@.len(), r@ == b@.take(n as int) { unimplemented!() }
#[verifier::external_body]
fn vx_from(b: &[u8], n: usize) -> (r: &[u8]) ensures r@ == (if n <= b@.len() { b@.subrange(n as int, b@.len() as int) } else { seq![] }) { unimplemented!() }
#[verifier::external_body]
fn vx_to(b: &[u8], n: usize) -> (r: &[u8]) ensures r@ == (if n <= b@.len() { b@.take(n as int) } else { b@ }) { unimplemented!() }
#[verifier::external_body]
fn vx_put(b: &mut [u8], n: usize, w: &[u8])
    ensures n <= old(b)@.len(), n == w@.len(), final(b)@.len() == old(b)@.len(), final(b)@.take(n as int) == w@ { unimplemented!() }
#[verifier::external_body]
fn vx_to_vec(b: &[u8]) -> (r: Vec<u8>) ensures r@ == b@ { unimplemented!() }
uninterp spec fn decimal(x: u64) -> Seq<u8>;
#[verifier::external_body]
fn vx_decimal(x: u64) -> (r: Vec<u8>) ensures r@ == decimal(x), r@.len() <= 20 { unimplemented!() }

impl Runtime {
//@ rule & $b:ident [ .. ( $n:rest ) ] ==> vx_prefix ( $b , $n )
//@ rule obj . bytes [ .. $n ] . copy_from_slice ( $w:rest ) ==> vx_put ( obj . bytes , $n , $w )
//@ expr ticc-eval/src/bytecode.rs Runtime::run
//@ select self.ops[ip.0]
//@ armbody Op::StringConcat
//@ params fn arm_concat(&mut self)
//@ rule concat . extend ( $x ) ==> concat . extend_from_slice ( $x )
    requires old(self).good(), old(self).used() <= 0x4000_0000,
    ensures gives_text(*old(self), *final(self), 2, text(old(self).heap.b(), ptr_val(top(*old(self), 1))) + text(old(self).heap.b(), ptr_val(top(*old(self), 0)))),
//@ head
    let ghost rr = *self;
//@ after let ptr2
    proof { held(rr, rr.stack.0@.len() - 1); assert(Value::Ptr(ptr2) == top(rr, 0)); }
//@ after let ptr1
    proof { held(rr, rr.stack.0@.len() - 2); assert(Value::Ptr(ptr1) == top(rr, 1)); }
    let ghost r0 = *self;
//@ before self . reserve
    proof {
        dropped_ok(rr, r0, 2);
        assert(concat@ =~= text(rr.heap.b(), ptr_val(top(rr, 1))) + text(rr.heap.b(), ptr_val(top(rr, 0))));
    }
//@ after self . reserve
    let ghost r1 = *self;
    let ghost s = choose|s: Seq<int>| self.ok(s);
//@ after self . stack . push
    let ghost r2 = *self;
    proof { built_text(r1, r2, s, concat@); }
//@ after self . maybe_gc
    proof { assert(text_steps(rr, r0, r1, r2, *self, s, 2, concat@)); }
//@ end
}

spec fn one_byte(x: u64) -> Seq<u8> { seq![x as u8] }
/// at most n bytes from place i on
spec fn substring(w: Seq<u8>, i: int, n: int) -> Seq<u8> {
    let t = if i <= w.len() { w.subrange(i, w.len() as int) } else { seq![] };
    if n <= t.len() { t.take(n) } else { t }
}
impl Runtime {
//@ expr ticc-eval/src/bytecode.rs Runtime::run
//@ select self.ops[ip.0]
//@ armbody Op::StringFromChar
//@ params fn arm_from_char(&mut self)
    requires old(self).good(), old(self).used() <= 0x4000_0000,
    ensures gives_text(*old(self), *final(self), 1, one_byte(word_val(top(*old(self), 0)) as u64)),
//@ head
    let ghost rr = *self;
//@ after let x
    let ghost r0 = *self;
    proof { dropped_ok(rr, r0, 1); assert((1u64 | STRING_TAG) & TAG_MASK == 1) by (bit_vector); }
//@ after self . reserve
    let ghost r1 = *self;
    let ghost s = choose|s: Seq<int>| self.ok(s);
//@ after self . stack . push
    let ghost r2 = *self;
    proof {
        assert(odata(r2.heap.b(), r2.heap.bump as int).take(1) =~= one_byte(x));
        built_text(r1, r2, s, one_byte(x));
    }
//@ after self . maybe_gc
    proof { assert(text_steps(rr, r0, r1, r2, *self, s, 1, one_byte(x))); }
//@ end
//@ expr ticc-eval/src/bytecode.rs Runtime::run
//@ select self.ops[ip.0]
//@ armbody Op::IntToString
//@ params fn arm_to_string(&mut self)
//@ rule x . to_string ( ) ==> vx_decimal ( x )
//@ rule s . as_bytes ( ) ==> & s
    requires old(self).good(), old(self).used() <= 0x4000_0000,
    ensures gives_text(*old(self), *final(self), 1, decimal(word_val(top(*old(self), 0)) as u64)),
//@ head
    let ghost rr = *self;
//@ after let x
    let ghost r0 = *self;
    proof { dropped_ok(rr, r0, 1); }
//@ after self . reserve
    let ghost r1 = *self;
    let ghost st = choose|s: Seq<int>| self.ok(s);
//@ after self . stack . push
    let ghost r2 = *self;
    proof { built_text(r1, r2, st, s@); }
//@ after self . maybe_gc
    proof { assert(text_steps(rr, r0, r1, r2, *self, st, 1, s@)); }
//@ end
//@ expr ticc-eval/src/bytecode.rs Runtime::run
//@ select self.ops[ip.0]
//@ armbody Op::StringSubstring
//@ params fn arm_substring(&mut self)
//@ rule bytes . to_vec ( ) ==> vx_to_vec ( bytes )
//@ rule $b:ident . get ( $s:ident .. ) . unwrap_or ( & [ ] ) ==> vx_from ( $b , $s )
//@ rule $b:ident . get ( .. $s:ident ) . unwrap_or ( $b:ident ) ==> vx_to ( $b , $s )
    requires old(self).good(), old(self).used() <= 0x4000_0000,
    ensures gives_text(*old(self), *final(self), 3, substring(text(old(self).heap.b(), ptr_val(top(*old(self), 0))), word_val(top(*old(self), 2)), word_val(top(*old(self), 1)))),
//@ head
    let ghost rr = *self;
//@ after let s
    proof { held(rr, rr.stack.0@.len() - 1); assert(Value::Ptr(s) == top(rr, 0)); }
//@ after let start
    let ghost r0 = *self;
    proof {
        assert(bytes@ =~= text(rr.heap.b(), ptr_val(top(rr, 0))));
        dropped_ok(rr, r0, 3);
    }
//@ before self . reserve
    let ghost w = substring(text(rr.heap.b(), ptr_val(top(rr, 0))), word_val(top(rr, 2)), word_val(top(rr, 1)));
    proof { assert(bytes@ =~= w); }
//@ after self . reserve
    let ghost r1 = *self;
    let ghost st = choose|s: Seq<int>| self.ok(s);
//@ after self . stack . push
    let ghost r2 = *self;
    proof { built_text(r1, r2, st, w); }
//@ after self . maybe_gc
    proof { assert(text_steps(rr, r0, r1, r2, *self, st, 3, w)); }
//@ end
}

// ---- instructions that read objects
/// the iterator over an object's fields; each is made by `field_value`
struct VxFields<'a> { words: &'a [u64], ptrs: u64 }
//@ fn ticc-eval/src/heap.rs Heap::obj_with_fields
//@ closure 0
//@ params fn field_value(ptrs: u64, i: usize, v: u64) -> (r: Value)
    requires i < 64,
    ensures r == (if hasbit(ptrs, i as int) { Value::Ptr(Addr(v)) } else { Value::Int(v) }),
//@ end
impl<'a> VxFields<'a> {
    /// all of them, in order
    fn vx_all(self) -> (r: Vec<Value>)
        requires self.words@.len() <= 64,
        ensures r@.len() == self.words@.len(),
            forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (if hasbit(self.ptrs, i) { Value::Ptr(Addr(self.words@[i])) } else { Value::Int(self.words@[i]) }),
    {
        let mut out: Vec<Value> = Vec::new();
        let n = self.words.len();
        let mut i: usize = 0;
        while i < n
            invariant i <= n == self.words@.len() <= 64, out@.len() == i,
                forall|k: int| 0 <= k < i ==> #[trigger] out@[k] == (if hasbit(self.ptrs, k) { Value::Ptr(Addr(self.words@[k])) } else { Value::Int(self.words@[k]) }),
            decreases n - i,
        {
            out.push(field_value(self.ptrs, i, self.words[i]));
            i += 1;
        }
        out
    }
}
impl Heap {
//@ fn ticc-eval/src/heap.rs Heap::obj_with_fields
//@ ret r
//@ rule impl Iterator < Item = Value > + '_ ==> VxFields < '_ >
//@ rule fields . iter ( ) . copied ( ) . enumerate ( ) . map ( $f:rest ) ==> VxFields { words : fields , ptrs }
    requires exists|s: Seq<int>| self.ok(s) && s.contains(addr.0 as int),
    ensures r.0 == hd(self.b(), addr.0 as int).tag, r.1.ptrs == hd(self.b(), addr.0 as int).ptrs,
        r.1.words@.len() == nf(self.b(), addr.0 as int), forall|i: int| 0 <= i < r.1.words@.len() ==> #[trigger] r.1.words@[i] as int == fval(self.b(), addr.0 as int, i),
//@ head
    proof { let s = choose|s: Seq<int>| self.ok(s) && s.contains(addr.0 as int); let k = choose|k: int| 0 <= k < s.len() && s[k] == addr.0; assert(tile(self.b(), s, s[k], k)); }
//@ end
}
spec fn same_but_stack(r: Runtime, q: Runtime) -> bool {
    q.heap == r.heap && q.consts == r.consts && q.bools == r.bools && q.ops == r.ops && q.ctor_tags == r.ctor_tags
}
proof fn int_pushed(r: Runtime, q: Runtime, k: int)
    requires r.good(), same_but_stack(r, q), 0 <= k <= r.stack.0@.len(), q.stack.0@.len() == r.stack.0@.len() - k + 1, q.stack.0@.drop_last() =~= r.stack.0@.take(r.stack.0@.len() - k), q.stack.0@.last() is Int,
    ensures q.good(),
{
    let s = choose|s: Seq<int>| r.ok(s);
    assert forall|i: int| 0 <= i < q.stack.0@.len() implies live(#[trigger] q.stack.0@[i], s) by { if i < q.stack.0@.len() - 1 { assert(q.stack.0@.drop_last()[i] == r.stack.0@[i]); assert(live(r.stack.0@[i], s)); } }
    assert(q.ok(s));
}
/// the fields of object a came onto the stack
spec fn unpacked(r: Runtime, q: Runtime, base: int, a: int) -> bool {
    &&& same_but_stack(r, q)
    &&& q.stack.0@.take(base) =~= r.stack.0@.take(base)
    &&& holds_values(r.heap.b(), a, q.stack.0@.subrange(base, q.stack.0@.len() as int))
}
impl Runtime {
//@ expr ticc-eval/src/bytecode.rs Runtime::run
//@ select self.ops[ip.0]
//@ armbody Op::StringLen
//@ params fn arm_len(&mut self)
    requires old(self).good(),
    ensures final(self).good(), same_but_stack(*old(self), *final(self)),
        final(self).stack.0@ =~= old(self).stack.0@.drop_last().push(Value::Int(text_len(old(self).heap.b(), ptr_val(top(*old(self), 0))) as u64)),
//@ head
    let ghost rr = *self;
//@ after let ptr
    proof { held(rr, rr.stack.0@.len() - 1); assert(Value::Ptr(ptr) == top(rr, 0)); }
//@ after self . stack . push
    proof { int_pushed(rr, *self, 1); }
//@ end
//@ expr ticc-eval/src/bytecode.rs Runtime::run
//@ select self.ops[ip.0]
//@ armbody Op::StringCharAt
//@ params fn arm_char_at(&mut self)
//@ rule bytes [ $i:rest ] ==> vx_at ( bytes , $i )
//@ rule self . stack . push ( $x:rest ) ==> { self.stack.push($x); proof { int_pushed(rr, *self, 2); } }
    requires old(self).good(),
    ensures final(self).good(), same_but_stack(*old(self), *final(self)),
        final(self).stack.0@ =~= old(self).stack.0@.take(old(self).stack.0@.len() - 2).push(Value::Int(char_at(odata(old(self).heap.b(), ptr_val(top(*old(self), 0))), text_len(old(self).heap.b(), ptr_val(top(*old(self), 0))), word_val(top(*old(self), 1))) as u64)),
//@ head
    let ghost rr = *self;
//@ after let ptr
    proof { held(rr, rr.stack.0@.len() - 1); assert(Value::Ptr(ptr) == top(rr, 0)); }
//@ end
}
impl Stack {
//@ rule * self . 0 . iter ( ) . rev ( ) . nth ( $d ) . unwrap ( ) ==> vx_from_top ( & self . 0 , $d )
//@ rule * self . 0 . last ( ) . unwrap ( ) ==> * vx_unwrap ( self . 0 . last ( ) )
//@ fn ticc-eval/src/bytecode.rs Stack::pick
//@ ret r
    ensures depth < self.0@.len(), r == self.0@[self.0@.len() - 1 - depth],
//@ end
//@ fn ticc-eval/src/bytecode.rs Stack::peek
//@ ret r
    ensures 0 < self.0@.len(), r == self.0@.last(),
//@ end
//@ fn ticc-eval/src/bytecode.rs Stack::set
//@ rule * self . 0 . iter_mut ( ) . rev ( ) . nth ( depth ) . unwrap ( ) = $v ==> vx_set_from_top ( & mut self . 0 , depth , $v )
    ensures depth < old(self).0@.len(), final(self).0@ == old(self).0@.update(old(self).0@.len() - 1 - depth, value),
//@ end
}
#[verifier::external_body]
fn vx_from_top(v: &Vec<Value>, d: usize) -> (r: Value) ensures d < v@.len(), r == v@[v@.len() - 1 - d] { unimplemented!() }
#[verifier::external_body]
fn vx_set_from_top(v: &mut Vec<Value>, d: usize, x: Value) ensures d < old(v)@.len(), final(v)@ == old(v)@.update(old(v)@.len() - 1 - d, x) { unimplemented!() }
/// the first n of the values w are the fields of object a
spec fn unpacking(b: Seq<u8>, a: int, w: Seq<Value>, n: int) -> bool {
    forall|i: int| 0 <= i < n ==> unpacks(b, a, i, #[trigger] w[i])
}
spec fn unpacks(b: Seq<u8>, a: int, i: int, v: Value) -> bool {
    if is_ptr(b, a, i) { v is Ptr && v->Ptr_0.0 == fval(b, a, i) } else { v is Int && v->Int_0 == fval(b, a, i) }
}
proof fn unpack_done(r: Runtime, q: Runtime, base: int, a: int)
    requires
        exists|s: Seq<int>| r.ok(s) && #[trigger] s.contains(a), same_but_stack(r, q), nf(r.heap.b(), a) <= 64,
        0 <= base <= r.stack.0@.len(), q.stack.0@.len() == base + nf(r.heap.b(), a), q.stack.0@.take(base) =~= r.stack.0@.take(base),
        unpacking(r.heap.b(), a, q.stack.0@.subrange(base, q.stack.0@.len() as int), nf(r.heap.b(), a)),
    ensures q.good(), unpacked(r, q, base, a),
{
    let s = choose|s: Seq<int>| r.ok(s) && #[trigger] s.contains(a);
    let b = r.heap.b();
    let k = choose|k: int| 0 <= k < s.len() && s[k] == a;
    assert(obj_refs_ok(b, s, s[k]));
    assert(tile(b, s, s[k], k));
    let n = nf(b, a);
    assert(n >= 0);
    no_bits(64);
    let w = q.stack.0@.subrange(base, q.stack.0@.len() as int);
    assert forall|i: int| 0 <= i < w.len() implies field_holds(b, a, i, #[trigger] w[i]) by { assert(unpacks(b, a, i, w[i])); }
    assert forall|i: int| 0 <= i < q.stack.0@.len() implies live(#[trigger] q.stack.0@[i], s) by {
        if i < base { assert(q.stack.0@.take(base)[i] == r.stack.0@.take(base)[i]); assert(live(r.stack.0@[i], s)); }
        else { assert(w[i - base] == q.stack.0@[i]); assert(unpacks(b, a, i - base, w[i - base])); assert(field_holds(b, a, i - base, w[i - base])); }
    }
    assert(q.ok(s));
}
impl Runtime {
//@ expr ticc-eval/src/bytecode.rs Runtime::run
//@ select self.ops[ip.0]
//@ armbody Op::UnpackUpvalues
//@ params fn arm_unpack(&mut self)
//@ rule let Value :: Ptr ( closure_addr ) = self . stack . pick ( 1 ) else { $e:rest } ; ==> let closure_addr = match self . stack . pick ( 1 ) { Value :: Ptr ( x ) => x , _ => { vx_stop ( ) } } ;
//@ rule self . heap . obj_with_fields ( closure_addr ) . 1 ==> self . heap . obj_with_fields ( closure_addr ) . 1 . vx_all ( )
    requires old(self).good(), old(self).stack.0@.len() >= 2 && top(*old(self), 1) is Ptr ==> nf(old(self).heap.b(), ptr_val(top(*old(self), 1))) <= 64,
    ensures final(self).good(), unpacked(*old(self), *final(self), old(self).stack.0@.len() as int, ptr_val(top(*old(self), 1))),
//@ head
    let ghost rr = *self;
    let ghost n = rr.stack.0@.len() as int;
    let ghost a = ptr_val(top(rr, 1));
    let ghost b = rr.heap.b();
    proof { if n >= 2 { held(rr, n - 2); } }
//@ loop 0
    invariant
        same_but_stack(rr, *self), b == rr.heap.b(),
        vx_it0.seq().len() == nf(b, a), unpacking(b, a, vx_it0.seq(), nf(b, a)),
        self.stack.0@ =~= rr.stack.0@ + vx_it0.seq().take(vx_it0.index()),
//@ after for field in
    proof { unpack_done(rr, *self, n, a); }
//@ end
}
spec fn char_at(w: Seq<u8>, n: int, i: int) -> u8 { if i < n { w[i] } else { 0 } }
#[verifier::external_body]
fn vx_at(b: &[u8], n: usize) -> (r: u8) ensures n < b@.len(), r == b@[n as int] { unimplemented!() }

//@ type ticc-eval/src/bytecode.rs CodeAddr | #[derive(Clone, Copy)]
//@ type ticc-eval/src/bytecode.rs Branch
spec fn found_branch(br: Seq<Branch>, tag: u64, d: CodeAddr) -> bool {
    exists|k: int| 0 <= k < br.len() && #[trigger] br[k].tag == tag && br[k].dst == d && forall|j: int| 0 <= j < k ==> br[j].tag != tag
}
impl Runtime {
//@ expr ticc-eval/src/bytecode.rs Runtime::run
//@ select self.ops[ip.0]
//@ armbody Op::Branch(ref branches)
//@ params fn arm_branch(&mut self, branches: &[Branch], vx_dst: &mut CodeAddr)
//@ rule 'find_branch : { $b:rest } ==> 'find_branch : loop invariant_except_break same_but_stack(rr, *self), same_but_stack(rr, r0), n >= 1, self.stack.0@ =~= rr.stack.0@.take(n - 1), fields@.len() == nf(b, a), unpacking(b, a, fields@, nf(b, a)), tag == hd(b, a).tag, b == rr.heap.b() ensures same_but_stack(rr, *self), self.stack.0@ =~= rr.stack.0@.take(n - 1) + fields@, fields@.len() == nf(b, a), unpacking(b, a, fields@, nf(b, a)), found_branch(branches@, tag, *vx_dst) decreases 0int { $b } proof { assert(self.stack.0@.subrange(n - 1, self.stack.0@.len() as int) =~= fields@); unpack_done(rr, *self, n - 1, a); }
//@ rule dst = br . dst ==> * vx_dst = br . dst
//@ rule let ( tag , fields ) = self . heap . obj_with_fields ( obj ) ; ==> let ( tag , vx_f ) = self . heap . obj_with_fields ( obj ) ; let fields = vx_f . vx_all ( ) ;
//@ rule panic ! ( $b:rest ) ==> vx_stop ( )
    requires old(self).good(), old(self).stack.0@.len() >= 1 && top(*old(self), 0) is Ptr ==> nf(old(self).heap.b(), ptr_val(top(*old(self), 0))) <= 64,
    ensures final(self).good(), unpacked(*old(self), *final(self), old(self).stack.0@.len() - 1, ptr_val(top(*old(self), 0))),
        found_branch(branches@, hd(old(self).heap.b(), ptr_val(top(*old(self), 0))).tag, *final(vx_dst)),
//@ attr
#[verifier::exec_allows_no_decreases_clause]
//@ head
    let ghost rr = *self;
    let ghost n = rr.stack.0@.len() as int;
    let ghost a = ptr_val(top(rr, 0));
    let ghost b = rr.heap.b();
    proof { if n >= 1 { held(rr, n - 1); } }
//@ after let obj
    let ghost r0 = *self;
//@ loop 0
    invariant
        same_but_stack(rr, *self), n >= 1, self.stack.0@ =~= rr.stack.0@.take(n - 1), fields@.len() == nf(b, a), unpacking(b, a, fields@, nf(b, a)), tag == hd(b, a).tag, b == rr.heap.b(),
        vx_it0.seq().len() == branches@.len(), forall|k: int| 0 <= k < branches@.len() ==> *#[trigger] vx_it0.seq()[k] == branches@[k],
        forall|j: int| 0 <= j < vx_it0.index() ==> #[trigger] branches@[j].tag != tag,
//@ loop 1
    invariant
        same_but_stack(rr, *self), n >= 1, vx_it1.seq() == fields@,
        self.stack.0@ =~= rr.stack.0@.take(n - 1) + fields@.take(vx_it1.index()),
//@ end
}

// ---- instructions on integers
impl Bools {
//@ fn ticc-eval/src/bytecode.rs Bools::get
//@ ret r
    ensures r == Value::Ptr(if v { self.t } else { self.f }),
//@ end
}
spec fn wrap(x: int) -> int { x % 0x1_0000_0000_0000_0000 }
/// two numbers were replaced by v
spec fn two_to_one(r: Runtime, q: Runtime, v: Value) -> bool {
    &&& r.stack.0@.len() >= 2 && top(r, 0) is Int && top(r, 1) is Int
    &&& same_but_stack(r, q) && q.stack.0@ =~= r.stack.0@.take(r.stack.0@.len() - 2).push(v)
}
spec fn boolean(r: Runtime, v: bool) -> Value { Value::Ptr(if v { r.bools.t } else { r.bools.f }) }
spec fn op_add(a: int, b: int) -> int { wrap(a + b) }
spec fn op_sub(a: int, b: int) -> int { wrap(a - b) }
spec fn op_mul(a: int, b: int) -> int { wrap(a * b) }
spec fn op_div(a: int, b: int) -> int { if b == 0 { 0 } else { a / b } }
spec fn op_mod(a: int, b: int) -> int { if b == 0 { a } else { a % b } }
impl Runtime {
//@ expr ticc-eval/src/bytecode.rs Runtime::run
//@ select self.ops[ip.0]
//@ armbody Op::Add
//@ params fn arm_add(&mut self)
    ensures two_to_one(*old(self), *final(self), Value::Int(op_add(word_val(top(*old(self), 1)), word_val(top(*old(self), 0))) as u64)),
//@ end
//@ expr ticc-eval/src/bytecode.rs Runtime::run
//@ select self.ops[ip.0]
//@ armbody Op::Sub
//@ params fn arm_sub(&mut self)
    ensures two_to_one(*old(self), *final(self), Value::Int(op_sub(word_val(top(*old(self), 1)), word_val(top(*old(self), 0))) as u64)),
//@ end
//@ expr ticc-eval/src/bytecode.rs Runtime::run
//@ select self.ops[ip.0]
//@ armbody Op::Mul
//@ params fn arm_mul(&mut self)
    ensures two_to_one(*old(self), *final(self), Value::Int(op_mul(word_val(top(*old(self), 1)), word_val(top(*old(self), 0))) as u64)),
//@ end
//@ expr ticc-eval/src/bytecode.rs Runtime::run
//@ select self.ops[ip.0]
//@ armbody Op::Div
//@ params fn arm_div(&mut self)
    ensures two_to_one(*old(self), *final(self), Value::Int(op_div(word_val(top(*old(self), 1)), word_val(top(*old(self), 0))) as u64)),
//@ end
//@ expr ticc-eval/src/bytecode.rs Runtime::run
//@ select self.ops[ip.0]
//@ armbody Op::Mod
//@ params fn arm_mod(&mut self)
    ensures two_to_one(*old(self), *final(self), Value::Int(op_mod(word_val(top(*old(self), 1)), word_val(top(*old(self), 0))) as u64)),
//@ end
//@ expr ticc-eval/src/bytecode.rs Runtime::run
//@ select self.ops[ip.0]
//@ armbody Op::Less
//@ params fn arm_less(&mut self)
    ensures two_to_one(*old(self), *final(self), boolean(*old(self), word_val(top(*old(self), 1)) < word_val(top(*old(self), 0)))),
//@ end
//@ expr ticc-eval/src/bytecode.rs Runtime::run
//@ select self.ops[ip.0]
//@ armbody Op::LessEq
//@ params fn arm_lesseq(&mut self)
    ensures two_to_one(*old(self), *final(self), boolean(*old(self), word_val(top(*old(self), 1)) <= word_val(top(*old(self), 0)))),
//@ end
//@ expr ticc-eval/src/bytecode.rs Runtime::run
//@ select self.ops[ip.0]
//@ armbody Op::Greater
//@ params fn arm_greater(&mut self)
    ensures two_to_one(*old(self), *final(self), boolean(*old(self), word_val(top(*old(self), 1)) > word_val(top(*old(self), 0)))),
//@ end
//@ expr ticc-eval/src/bytecode.rs Runtime::run
//@ select self.ops[ip.0]
//@ armbody Op::GreaterEq
//@ params fn arm_greatereq(&mut self)
    ensures two_to_one(*old(self), *final(self), boolean(*old(self), word_val(top(*old(self), 1)) >= word_val(top(*old(self), 0)))),
//@ end
//@ expr ticc-eval/src/bytecode.rs Runtime::run
//@ select self.ops[ip.0]
//@ armbody Op::Eq
//@ params fn arm_eq(&mut self)
    ensures two_to_one(*old(self), *final(self), boolean(*old(self), word_val(top(*old(self), 1)) == word_val(top(*old(self), 0)))),
//@ end
//@ expr ticc-eval/src/bytecode.rs Runtime::run
//@ select self.ops[ip.0]
//@ armbody Op::NotEq
//@ params fn arm_noteq(&mut self)
    ensures two_to_one(*old(self), *final(self), boolean(*old(self), word_val(top(*old(self), 1)) != word_val(top(*old(self), 0)))),
//@ end
}

// ---- instructions that move values and control
spec fn stack_is(r: Runtime, q: Runtime, v: Seq<Value>) -> bool { same_but_stack(r, q) && q.stack.0@ =~= v }
impl Runtime {
//@ expr ticc-eval/src/bytecode.rs Runtime::run
//@ select self.ops[ip.0]
//@ armbody Op::PushInt(i)
//@ params fn arm_push_int(&mut self, i: u64)
    ensures stack_is(*old(self), *final(self), old(self).stack.0@.push(Value::Int(i))),
//@ end
//@ expr ticc-eval/src/bytecode.rs Runtime::run
//@ select self.ops[ip.0]
//@ armbody Op::PushBool(b)
//@ params fn arm_push_bool(&mut self, b: bool)
    ensures stack_is(*old(self), *final(self), old(self).stack.0@.push(boolean(*old(self), b))),
//@ end
//@ expr ticc-eval/src/bytecode.rs Runtime::run
//@ select self.ops[ip.0]
//@ armbody Op::Pick(depth)
//@ params fn arm_pick(&mut self, depth: usize)
    ensures depth < old(self).stack.0@.len(), stack_is(*old(self), *final(self), old(self).stack.0@.push(top(*old(self), depth as int))),
//@ end
//@ expr ticc-eval/src/bytecode.rs Runtime::run
//@ select self.ops[ip.0]
//@ armbody Op::Set(depth)
//@ params fn arm_set(&mut self, depth: usize)
    ensures depth + 1 < old(self).stack.0@.len(), stack_is(*old(self), *final(self), old(self).stack.0@.drop_last().update(old(self).stack.0@.len() - 2 - depth, old(self).stack.0@.last())),
//@ end
//@ expr ticc-eval/src/bytecode.rs Runtime::run
//@ select self.ops[ip.0]
//@ armbody Op::PopN(n)
//@ params fn arm_pop_n(&mut self, n: usize)
    ensures n <= old(self).stack.0@.len(), stack_is(*old(self), *final(self), old(self).stack.0@.take(old(self).stack.0@.len() - n)),
//@ head
    let ghost rr = *self;
//@ loop 0
    invariant vx_it0.seq().len() == n, vx_it0.index() <= rr.stack.0@.len(), stack_is(rr, *self, rr.stack.0@.take(rr.stack.0@.len() - vx_it0.index())),
//@ end
//@ expr ticc-eval/src/bytecode.rs Runtime::run
//@ select self.ops[ip.0]
//@ armbody Op::SwapPop
//@ params fn arm_swap_pop(&mut self)
    ensures old(self).stack.0@.len() >= 2, stack_is(*old(self), *final(self), old(self).stack.0@.take(old(self).stack.0@.len() - 2).push(old(self).stack.0@.last())),
//@ end
//@ expr ticc-eval/src/bytecode.rs Runtime::run
//@ select self.ops[ip.0]
//@ armbody Op::Jump(d)
//@ params fn arm_jump(&mut self, d: CodeAddr, vx_dst: &mut CodeAddr)
//@ rule dst = $x ; ==> * vx_dst = $x ;
    ensures *final(vx_dst) == d, *final(self) == *old(self),
//@ end
//@ expr ticc-eval/src/bytecode.rs Runtime::run
//@ select self.ops[ip.0]
//@ armbody Op::JumpIfFalse(d)
//@ params fn arm_jump_if_false(&mut self, d: CodeAddr, vx_dst: &mut CodeAddr)
//@ rule dst = $x ; ==> * vx_dst = $x ;
//@ rule self . stack . pop_ptr ( ) == self . bools . f ==> vx_same_addr ( self . stack . pop_ptr ( ) , self . bools . f )
    ensures old(self).stack.0@.len() > 0 && old(self).stack.0@.last() is Ptr, stack_is(*old(self), *final(self), old(self).stack.0@.drop_last()), *final(vx_dst) == (if old(self).stack.0@.last()->Ptr_0 == old(self).bools.f { d } else { *old(vx_dst) }),
//@ end
//@ expr ticc-eval/src/bytecode.rs Runtime::run
//@ select self.ops[ip.0]
//@ armbody Op::Return { params, captures }
//@ params fn arm_return(&mut self, params: u32, captures: u32, vx_dst: &mut CodeAddr)
//@ rule dst = $x ; ==> * vx_dst = $x ;
    ensures ({
        let n = old(self).stack.0@.len() as int;
        let k = 3 + captures + params;
        &&& n >= k && old(self).stack.0@[n - 2 - captures] is Int
        &&& stack_is(*old(self), *final(self), old(self).stack.0@.take(n - k).push(old(self).stack.0@.last()))
        &&& final(vx_dst).0 == old(self).stack.0@[n - 2 - captures]->Int_0
    }),
//@ head
    let ghost rr = *self;
    let ghost n = rr.stack.0@.len() as int;
//@ loop 0
    invariant n == rr.stack.0@.len(), vx_it0.seq().len() == captures, vx_it0.index() + 1 <= n, stack_is(rr, *self, rr.stack.0@.take(n - 1 - vx_it0.index())),
//@ loop 1
    invariant n == rr.stack.0@.len(), vx_it1.seq().len() == params, vx_it1.index() + 3 + captures <= n, stack_is(rr, *self, rr.stack.0@.take(n - 3 - captures - vx_it1.index())),
//@ end
//@ expr ticc-eval/src/bytecode.rs Runtime::run
//@ select self.ops[ip.0]
//@ armbody Op::Call
//@ params fn arm_call(&mut self, vx_dst: &mut CodeAddr)
//@ rule let Value :: Ptr ( closure_addr ) = self . stack . peek ( ) else { $e:rest } ; ==> let closure_addr = match self . stack . peek ( ) { Value :: Ptr ( x ) => x , _ => { vx_stop ( ) } } ;
//@ rule self . stack . push ( Value :: Int ( dst . 0 as u64 ) ) ==> self . stack . push ( Value :: Int ( vx_dst . 0 as u64 ) )
//@ rule dst = $x ; ==> * vx_dst = $x ;
    requires old(self).good(),
    ensures old(self).stack.0@.len() > 0 && old(self).stack.0@.last() is Ptr,
        stack_is(*old(self), *final(self), old(self).stack.0@.push(Value::Int(old(vx_dst).0 as u64))),
        final(vx_dst).0 == hd(old(self).heap.b(), ptr_val(old(self).stack.0@.last())).tag & TAG_MASK,
//@ head
    let ghost rr = *self;
    proof { if rr.stack.0@.len() > 0 { held(rr, rr.stack.0@.len() - 1); } }
//@ end
//@ expr ticc-eval/src/bytecode.rs Runtime::run
//@ select self.ops[ip.0]
//@ armbody Op::Const(idx)
//@ params fn arm_const(&mut self, idx: usize)
    requires idx < old(self).consts@.len(),
    ensures stack_is(*old(self), *final(self), old(self).stack.0@.push(Value::Ptr(old(self).consts@[idx as int]))),
//@ end
}
fn vx_same_addr(a: Addr, b: Addr) -> (r: bool) ensures r == (a == b) { a.0 == b.0 }

// ---- loading the program's string constants
spec fn consts_ok(h: Heap, c: Seq<Addr>, s: Seq<int>) -> bool {
    h.ok(s) && forall|i: int| 0 <= i < c.len() ==> s.contains((#[trigger] c[i]).0 as int)
}
spec fn consts_same(h0: Heap, c0: Seq<Addr>, h1: Heap, c1: Seq<Addr>, s0: Seq<int>, s1: Seq<int>, m: Map<int, int>) -> bool {
    &&& consts_ok(h1, c1, s1) && same_graph(h0.b(), s0, h1.b(), s1, m) && c1.len() == c0.len()
    &&& forall|i: int| 0 <= i < c0.len() ==> sent_addr(#[trigger] c0[i], c1[i], m)
}
spec fn const_added(h1: Heap, c1: Seq<Addr>, h2: Heap, c2: Seq<Addr>, s: Seq<int>, w: Seq<u8>) -> bool {
    &&& consts_ok(h1, c1, s) && consts_ok(h2, c2, seq![h2.bump as int] + s) && kept_objects(h1, h2, s)
    &&& c2 == c1.push(Addr(h2.bump as u64)) && text(h2.b(), h2.bump as int) =~= w
}
spec fn const_loaded(h0: Heap, c0: Seq<Addr>, h2: Heap, c2: Seq<Addr>, w: Seq<u8>) -> bool {
    exists|h1: Heap, c1: Seq<Addr>, s0: Seq<int>, s1: Seq<int>, m: Map<int, int>|
        #[trigger] consts_same(h0, c0, h1, c1, s0, s1, m) && #[trigger] const_added(h1, c1, h2, c2, s1, w)
}
proof fn stay_consts(h: Heap, c: Seq<Addr>, s: Seq<int>)
    requires consts_ok(h, c, s),
    ensures consts_same(h, c, h, c, s, s, ident(s)),
{
    let m = ident(s);
    let b = h.b();
    assert forall|a: int| #[trigger] m.contains_key(a) implies s.contains(a) && s.contains(m[a]) && same_object(b, a, b, m[a], m) by {
        let k = choose|k: int| 0 <= k < s.len() && s[k] == a;
        assert(obj_refs_ok(b, s, s[k]));
        if hd(b, a).ptrs != 0 { assert forall|f: int| 0 <= f < nf(b, a) implies same_field(b, a, b, a, m, #[trigger] fval(b, a, f), f) by { } }
    }
}
proof fn rooted_consts(h: Heap, c: Seq<Addr>, s: Seq<int>, cells: Seq<&mut Addr>)
    requires consts_ok(h, c, s), cells.len() == c.len(), forall|i: int| 0 <= i < c.len() ==> #[trigger] const_now(c, cells[i], i),
    ensures rooted(values(cells), s),
{
    assert forall|i: int| 0 <= i < cells.len() implies s.contains(#[trigger] values(cells)[i]) by { assert(const_now(c, cells[i], i)); }
}
proof fn moved_consts(h0: Heap, c0: Seq<Addr>, h1: Heap, c1: Seq<Addr>, cells: Seq<&mut Addr>)
    requires collected(h0, h1, cells), cells.len() == c0.len() == c1.len(), forall|i: int| 0 <= i < c0.len() ==> #[trigger] const_cell(c0, c1, cells[i], i),
    ensures exists|s0: Seq<int>, s1: Seq<int>, m: Map<int, int>| #[trigger] consts_same(h0, c0, h1, c1, s0, s1, m),
{
    let (s0, s1, m) = choose|s0: Seq<int>, s1: Seq<int>, m: Map<int, int>| #[trigger] preserved(h0, h1, cells, s0, s1, m);
    assert forall|i: int| 0 <= i < c0.len() implies sent_addr(#[trigger] c0[i], c1[i], m) && s1.contains(c1[i].0 as int) by {
        assert(const_cell(c0, c1, cells[i], i));
        assert(relocated(cells, i, m));
    }
    assert forall|i: int| 0 <= i < c1.len() implies s1.contains((#[trigger] c1[i]).0 as int) by { assert(sent_addr(c0[i], c1[i], m)); }
    assert(consts_same(h0, c0, h1, c1, s0, s1, m));
}
proof fn const_placed(h1: Heap, c1: Seq<Addr>, h2: Heap, c2: Seq<Addr>, s: Seq<int>, w: Seq<u8>)
    requires
        consts_ok(h1, c1, s), w.len() <= 0x4000_0000, placed(h1, h2, 24 + up8(w.len() as int)), h1.bump >= 24 + up8(w.len() as int),
        hd(h2.b(), h2.bump as int) == (Header { size: (24 + up8(w.len() as int)) as u32, mark: 0, ptrs: 0, tag: w.len() as u64 | STRING_TAG }),
        odata(h2.b(), h2.bump as int).take(w.len() as int) =~= w,
        c2 == c1.push(Addr(h2.bump as u64)),
    ensures const_added(h1, c1, h2, c2, s, w),
{
    let a = h2.bump as int;
    let t = seq![a] + s;
    assert(obj_refs_ok(h2.b(), t, a));
    placed_ok(h1, h2, s, 24 + up8(w.len() as int));
    grown(s, a);
    text_tag(w.len() as u64);
    assert forall|i: int| 0 <= i < c2.len() implies t.contains((#[trigger] c2[i]).0 as int) by { if i < c1.len() { assert(c2[i] == c1[i]); } }
}
//@ expr ticc-eval/src/bytecode.rs link
//@ select op
//@ armbody compile::Op::PushString(s)
//@ params fn load_string(heap: &mut Heap, consts: &mut Vec<Addr>, s: Vec<u8>) -> (r: usize)
//@ rule consts . iter_mut ( ) ==> vx_cells ( consts )
//@ rule Op :: Const ( $e:rest ) ==> $e
    requires exists|s: Seq<int>| consts_ok(*old(heap), old(consts)@, s), s@.len() <= 0x4000_0000, old(heap).b().len() - old(heap).bump <= 0x4000_0000,
    ensures r == old(consts)@.len(), const_loaded(*old(heap), old(consts)@, *final(heap), final(consts)@, s@),
        final(heap).bump >= 200,
//@ rule heap . collect_and_grow ( $r , $n:rest ) ==> { let vx_roots = vx_same($r); let ghost vx_c = vx_roots.cells(); proof { rooted_consts(h0, c0, s0, vx_c); } heap.collect_and_grow(vx_roots, $n); proof { moved_consts(h0, c0, *heap, consts@, vx_c); } }
//@ head
    let ghost h0 = *heap;
    let ghost c0 = consts@;
    let ghost s0 = choose|s: Seq<int>| consts_ok(*heap, consts@, s);
    proof { stay_consts(h0, c0, s0); }
//@ before let obj
    let ghost h1 = *heap;
    let ghost c1 = consts@;
    let ghost (t0, s1, m) = choose|t0: Seq<int>, s1: Seq<int>, m: Map<int, int>| #[trigger] consts_same(h0, c0, h1, c1, t0, s1, m);
//@ after consts . push
    proof { const_placed(h1, c1, *heap, consts@, s1, s@); }
//@ end

} // verus!
fn main() {}
