// what key presses mean, given the table of bindings (proved of the engine in P03, relied on in P04)
verus! {
/// what the user bound: key code sequences and the action of each
pub type Table = Seq<(Seq<u8>, Action)>;

/// the action bound to exactly these key codes; the last binding counts
pub open spec fn bound(t: Table, s: Seq<u8>) -> Option<Action>
    decreases t.len()
{
    if t.len() == 0 { None } else if t.last().0 == s { Some(t.last().1) } else { bound(t.drop_last(), s) }
}
/// some binding starts with these key codes
pub open spec fn begun(t: Table, s: Seq<u8>) -> bool { exists|i: int| 0 <= i < t.len() && s.is_prefix_of((#[trigger] t[i]).0) }

/// one key press: what is reported and what has been typed of a binding afterwards
pub open spec fn press(t: Table, typed: Seq<u8>, b: u8) -> (BindingResult, Seq<u8>) {
    let s = typed.push(b);
    if bound(t, s) is Some { (BindingResult::Match(bound(t, s)->0), Seq::empty()) }
    else if begun(t, s) { (BindingResult::Partial, s) }
    else { (BindingResult::NoMatch, Seq::empty()) }
}
}
