use vstd::prelude::*;
verus!{
/// slice equality (trusted: `==` on slices of integers compares the contents)
#[verifier::external_body]
fn same(a: &[u64], b: &[u64]) -> (r: bool) ensures r == (a@ =~= b@) { a == b }
pub open spec fn occurs(h: Seq<u64>, n: Seq<u64>, i: int) -> bool { 0 <= i && i + n.len() <= h.len() && h.subrange(i, i + n.len()) =~= n }
/// some reported occurrence contains index i
pub open spec fn covered(r: Seq<usize>, n: Seq<u64>, i: int) -> bool decreases r.len() {
    r.len() > 0 && (covered(r.drop_last(), n, i) || r.last() <= i < r.last() + n.len())
}
/// every reported index is an occurrence, after the end of the one before it
pub open spec fn disjoint_occurrences(h: Seq<u64>, n: Seq<u64>, r: Seq<usize>, to: int) -> bool decreases r.len() {
    r.len() == 0 || (occurs(h, n, r.last() as int) && r.last() + n.len() <= to && disjoint_occurrences(h, n, r.drop_last(), r.last() as int))
}
/// the contract: `r` is the greedy list of the occurrences of n that start below `to`
pub open spec fn greedy(h: Seq<u64>, n: Seq<u64>, r: Seq<usize>, to: int) -> bool {
    &&& disjoint_occurrences(h, n, r, to)
    // an occurrence that is not reported starts inside a reported one
    &&& forall|i: int| #![trigger occurs(h, n, i)] 0 <= i < to && occurs(h, n, i) ==> covered(r, n, i)
}
proof fn lemma_covered(r: Seq<usize>, x: usize, n: Seq<u64>, i: int)
    ensures covered(r.push(x), n, i) == (covered(r, n, i) || x <= i < x + n.len())
{ assert(r.push(x).drop_last() =~= r); }
/// what one step of the search does to the contract
proof fn lemma_step(h: Seq<u64>, n: Seq<u64>, r: Seq<usize>, pos: usize)
    requires greedy(h, n, r, pos as int), n.len() > 0, pos + n.len() <= h.len()
    ensures forall|e: int| e == pos + n.len() ==> ((#[trigger] h.subrange(pos as int, e) =~= n) == occurs(h, n, pos as int)),
        occurs(h, n, pos as int) ==> forall|e: int| e == pos + n.len() ==> #[trigger] greedy(h, n, r.push(pos), e),
        !occurs(h, n, pos as int) ==> forall|e: int| e == pos + 1 ==> #[trigger] greedy(h, n, r, e),
{
    let q = r.push(pos);
    if h.subrange(pos as int, pos + n.len()) =~= n {
        assert(q.drop_last() =~= r);
        assert(occurs(h, n, pos as int));
        assert forall|i: int| 0 <= i < pos + n.len() && #[trigger] occurs(h, n, i) implies covered(q, n, i) by { lemma_covered(r, pos, n, i); }
    } else {
        assert(!occurs(h, n, pos as int));
    }
}
//@GSUB '<T: Eq>' => ''
//@GSUB '&\[T\]' => '&[u64]'
//@FN find_non_overlapping from autoprecompiles/src/blocks/mod.rs
//@ret r
//@contract requires needle.len() > 0, haystack.len() + needle.len() <= usize::MAX,
//@contract ensures greedy(haystack@, needle@, r@, haystack.len() as int),
//@sub 'vec![]' => 'Vec::<usize>::new()'
//@sub 'haystack[pos..pos + needle.len()] == needle[..]' => 'same(&haystack[pos..pos + needle.len()], &needle[..])'
//@loop 0 invariant needle.len() > 0, haystack.len() + needle.len() <= usize::MAX, 0 <= pos <= haystack.len(), greedy(haystack@, needle@, indices@, pos as int), decreases haystack.len() - pos,
//@body 0 proof { lemma_step(haystack@, needle@, indices@, pos); }
//@END
} // verus
fn main() {}
