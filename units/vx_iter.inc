// rule R1: E.iter().position(C)
pub fn vx_position<T, F: Fn(&T) -> bool>(v: &Vec<T>, f: F) -> (r: Option<usize>)
    requires forall|i: int| 0 <= i < v@.len() ==> f.requires((&v@[i],)),
    ensures match r {
        Some(i) => i < v@.len() && f.ensures((&v@[i as int],), true) && forall|j: int| 0 <= j < i ==> f.ensures((&v@[j],), false),
        None => forall|j: int| 0 <= j < v@.len() ==> f.ensures((&v@[j],), false) }
{
    let mut i = 0;
    while i < v.len()
        invariant i <= v@.len(), forall|k: int| 0 <= k < v@.len() ==> f.requires((&v@[k],)), forall|j: int| 0 <= j < i ==> f.ensures((&v@[j],), false),
        decreases v@.len() - i
    {
        if f(&v[i]) { return Some(i); }
        i += 1;
    }
    None
}
// rule R1: E.iter().find(C)
pub fn vx_find<'a, T, F: Fn(&&'a T) -> bool>(v: &'a Vec<T>, f: F) -> (r: Option<&'a T>)
    requires forall|i: int| 0 <= i < v@.len() ==> f.requires((&&v@[i],)),
    ensures match r {
        Some(x) => exists|i: int| 0 <= i < v@.len() && x == &v@[i] && f.ensures((&&v@[i],), true) && forall|j: int| 0 <= j < i ==> f.ensures((&&v@[j],), false),
        None => forall|j: int| 0 <= j < v@.len() ==> f.ensures((&&v@[j],), false) }
{
    let mut i = 0;
    while i < v.len()
        invariant i <= v@.len(), forall|k: int| 0 <= k < v@.len() ==> f.requires((&&v@[k],)), forall|j: int| 0 <= j < i ==> f.ensures((&&v@[j],), false),
        decreases v@.len() - i
    {
        let x = &v[i];
        if f(&x) { return Some(x); }
        i += 1;
    }
    None
}
// rule R7: E.retain(C)
pub open spec fn s_filter<T>(s: Seq<T>, g: spec_fn(T) -> bool) -> Seq<T>
    decreases s.len()
{
    if s.len() == 0 { s } else if g(s.last()) { s_filter(s.drop_last(), g).push(s.last()) } else { s_filter(s.drop_last(), g) }
}
pub open spec fn s_decides<T, F: Fn(&T) -> bool>(f: F, g: spec_fn(T) -> bool) -> bool { forall|x: T, b: bool| #[trigger] f.ensures((&x,), b) ==> b == g(x) }
pub fn vx_retain<T, F: Fn(&T) -> bool>(v: &mut Vec<T>, f: F)
    requires forall|x: T| #[trigger] f.requires((&x,))
    ensures forall|g: spec_fn(T) -> bool| s_decides(f, g) ==> final(v)@ == #[trigger] s_filter(old(v)@, g)
{
    let mut i: usize = 0;
    let ghost mut n: int = 0;
    while i < v.len()
        invariant 0 <= i <= v@.len(), 0 <= n <= old(v)@.len(), v@.len() - i == old(v)@.len() - n, v@.skip(i as int) =~= old(v)@.skip(n),
            forall|g: spec_fn(T) -> bool| s_decides(f, g) ==> v@.take(i as int) =~= #[trigger] s_filter(old(v)@.take(n), g),
            forall|x: T| #[trigger] f.requires((&x,)),
        decreases v@.len() - i
    {
        let ghost w = v@;
        let ghost a = old(v)@.take(n);
        let ghost b = old(v)@.take(n + 1);
        proof { assert(w[i as int] == w.skip(i as int)[0]); assert(old(v)@[n] == old(v)@.skip(n)[0]); assert(b.drop_last() =~= a); assert(b.last() == old(v)@[n]); }
        let ghost x = v@[i as int];
        let ghost j = i as int;
        let keep = f(&v[i]);
        if keep { i += 1; } else { v.remove(i); }
        proof {
            assert forall|g: spec_fn(T) -> bool| s_decides(f, g) implies v@.take(i as int) =~= #[trigger] s_filter(b, g) by {
                assert(w.take(j) =~= s_filter(a, g)); assert(keep == g(x)); 
                if keep { assert(v@.take(i as int) =~= w.take(j).push(x)); } else { assert(v@.take(i as int) =~= w.take(j)); } }
            n = n + 1;
            assert forall|k: int| 0 <= k < v@.len() - i implies v@.skip(i as int)[k] == old(v)@.skip(n)[k] by { assert(w.skip(j)[k + 1] == old(v)@.skip(n - 1)[k + 1]); }
            assert(v@.skip(i as int) =~= old(v)@.skip(n));
        }
    }
    proof { assert(v@.take(i as int) =~= v@); assert(old(v)@.take(n) =~= old(v)@); }
}
// E.iter().rev()
pub fn vx_rev<'a, T>(v: &'a Vec<T>) -> (r: Vec<&'a T>)
    ensures r@.len() == v@.len(), forall|j: int| 0 <= j < r@.len() ==> *(#[trigger] r@[j]) == v@.reverse()[j]
{
    let mut r: Vec<&'a T> = Vec::new();
    let mut i = v.len();
    while i > 0
        invariant i <= v@.len(), r@.len() == v@.len() - i, forall|j: int| 0 <= j < r@.len() ==> *(#[trigger] r@[j]) == v@[v@.len() - 1 - j]
        decreases i
    { i -= 1; r.push(&v[i]); }
    r
}
