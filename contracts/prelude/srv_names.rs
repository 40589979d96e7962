verus! {
/// the names that are (not) in the table, in order
pub open spec fn missing(names: Seq<Seq<char>>, t: Map<Seq<char>, int>) -> Seq<Seq<char>>
    decreases names.len()
{
    if names.len() == 0 { Seq::empty() } else { let p = missing(names.drop_last(), t); if t.contains_key(names.last()) { p } else { p.push(names.last()) } }
}
pub open spec fn found(names: Seq<Seq<char>>, t: Map<Seq<char>, int>) -> Seq<Seq<char>>
    decreases names.len()
{
    if names.len() == 0 { Seq::empty() } else { let p = found(names.drop_last(), t); if t.contains_key(names.last()) { p.push(names.last()) } else { p } }
}
proof fn lemma_found(names: Seq<Seq<char>>, t: Map<Seq<char>, int>)
    ensures forall|i: int| 0 <= i < found(names, t).len() ==> t.contains_key(#[trigger] found(names, t)[i]),
        forall|i: int| 0 <= i < names.len() && t.contains_key(#[trigger] names[i]) ==> found(names, t).contains(names[i])
    decreases names.len()
{
    if names.len() > 0 {
        lemma_found(names.drop_last(), t);
        let p = found(names.drop_last(), t);
        assert forall|i: int| 0 <= i < names.len() && t.contains_key(#[trigger] names[i]) implies found(names, t).contains(names[i]) by {
            if i < names.len() - 1 {
                assert(names.drop_last()[i] == names[i]);
                let k = choose|k: int| 0 <= k < p.len() && p[k] == names[i];
                assert(found(names, t)[k] == names[i]);
            } else { assert(found(names, t).last() == names[i]); }
        }
    }
}
proof fn lemma_found_names(names: Seq<Seq<char>>, t: Map<Seq<char>, int>)
    ensures forall|i: int| 0 <= i < found(names, t).len() ==> names.contains(#[trigger] found(names, t)[i])
    decreases names.len()
{
    if names.len() > 0 {
        lemma_found_names(names.drop_last(), t);
        let p = found(names.drop_last(), t);
        assert forall|i: int| 0 <= i < found(names, t).len() implies names.contains(#[trigger] found(names, t)[i]) by {
            if i < p.len() {
                assert(found(names, t)[i] == p[i]);
                let k = choose|k: int| 0 <= k < names.drop_last().len() && names.drop_last()[k] == p[i];
                assert(names[k] == p[i]);
            } else { assert(names[names.len() - 1] == names.last()); }
        }
    }
}
} // verus!
