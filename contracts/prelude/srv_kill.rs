verus! {
impl Server {
//@fn libshpool/src/daemon/server.rs :: handle_kill
//@ret r
//@scoped `self.shells.lock(` => `w.unlock(&$g);`
//@sub `&self, mut stream` => `&self, w: &mut World, mut stream`
//@sub `self.shells.lock(` => `self.shells.lock(w`
//@sub `shells.get(` => `shells.get(w, `
//@sub `shells.remove(` => `shells.remove(w, `
//@sub `write_reply(` => `write_reply(w, `
//@sub `.publish(` => `.publish(w, `
//@sub `.kill()` => `.kill(w)`
//@bind nf `let mut ? = vec![];`
//@spec
        requires fresh_world(old(w).v()),
        ensures
            P23() ==> final(w).v().owed.len() == 0 && final(w).v().said.len() == 0,
            P14() && r is Ok ==> ({
                let (names, t) = (texts(request.sessions@), final(w).v().took);
                // exactly the sessions named and listed are dropped, with their shells killed; the rest are reported
                &&& final(w).v().replies == seq![Rep::Kill(missing(names, t))]
                &&& forall|n: Seq<char>| #[trigger] final(w).v().left.contains_key(n) <==> t.contains_key(n) && !names.contains(n)
                &&& forall|n: Seq<char>| final(w).v().left.contains_key(n) ==> final(w).v().left[n] == t[n]
                &&& forall|i: int| 0 <= i < names.len() && t.contains_key(#[trigger] names[i]) ==> final(w).v().killed.contains(t[names[i]])
            }),
            // no other session is touched
            P14() ==> forall|s: int| final(w).v().tried.contains(s) ==> exists|i: int| 0 <= i < request.sessions@.len() && final(w).v().took.contains_key(#[trigger] request.sessions@[i]@) && s == final(w).v().took[request.sessions@[i]@],
//@bind todo `let mut ? = Vec::with_capacity`
//@at start
        let ghost names = texts(request.sessions@);
        let ghost mut t = Map::<Seq<char>, int>::empty();
//@at loopbefore 0
            proof { t = shells@; assert(names.take(0) =~= Seq::empty()); assert(texts($nf@) =~= Seq::empty()); assert(texts($todo@) =~= Seq::empty()); }
//@loop 0 iter=it
            invariant
                texts(it.seq()) == names, names == texts(request.sessions@), shells@ == t, w.v().took == t,
                w.v().replies.len() == 0, w.v().owed.len() == 0, w.v().said.len() == 0, w.v().present is None, P23() ==> w.v().locked,
                texts($nf@) == missing(names.take(it.index() as int), t),
                texts($todo@) == found(names.take(it.index() as int), t),
                forall|k: int| 0 <= k < $todo@.len() ==> w.v().killed.contains(t[(#[trigger] $todo@[k])@]),
                forall|s: int| w.v().tried.contains(s) ==> exists|i: int| 0 <= i < request.sessions@.len() && w.v().took.contains_key(#[trigger] request.sessions@[i]@) && s == w.v().took[request.sessions@[i]@],
//@at loopstart 0
                let ghost i = it.index() as int;
                let ghost (nf0, todo0) = ($nf@, $todo@);
                proof {
                    assert(names[i] == it.seq()[i]@);
                    assert(request.sessions@[i]@ == names[i]);
                    assert(names.take(i + 1).drop_last() =~= names.take(i));
                }
//@at loopend 0
                proof {
                    if t.contains_key(names[i]) { assert(texts($todo@) =~= texts(todo0).push(names[i])); } else { assert(texts($nf@) =~= texts(nf0).push(names[i])); }
                }
//@at loopbefore 1
            proof { assert(names.take(names.len() as int) =~= names); lemma_found(names, t); }
            let ghost (w1, fs) = (w.v(), found(names, t));
            proof { assert forall|k: int| 0 <= k < fs.len() implies fs[k] == #[trigger] $todo@[k]@ by {} }
//@loop 1 iter=it
            invariant
                fs == found(names, t), texts($todo@) == fs, it.seq().len() == fs.len(),
                forall|k: int| 0 <= k < fs.len() ==> (*(#[trigger] it.seq()[k]))@ == fs[k],
                forall|n: Seq<char>| #[trigger] shells@.contains_key(n) <==> t.contains_key(n) && forall|k: int| 0 <= k < it.index() ==> fs[k] != n,
                forall|n: Seq<char>| shells@.contains_key(n) ==> shells@[n] == t[n],
                forall|k: int| 0 <= k < $todo@.len() ==> w1.killed.contains(t[(#[trigger] $todo@[k])@]),
                w.v().killed == w1.killed, w.v().tried == w1.tried, w.v().took == w1.took, w.v().replies.len() == 0, w.v().said.len() == 0, w.v().present is None,
                P23() ==> w.v().owed.len() == 0 && w.v().locked,
//@at loopstart 1
                let ghost j = it.index() as int;
                proof { assert((*it.seq()[j])@ == fs[j]); assert($todo@[j]@ == fs[j]); }
//@at loopafter 1
            proof {
                assert forall|n: Seq<char>| names.contains(n) && t.contains_key(n) implies fs.contains(n) by {
                    let i = choose|i: int| 0 <= i < names.len() && names[i] == n;
                    assert(fs.contains(names[i]));
                }
                lemma_found_names(names, t);
                assert forall|i: int| 0 <= i < names.len() && t.contains_key(#[trigger] names[i]) implies w.v().killed.contains(t[names[i]]) by {
                    let k = choose|k: int| 0 <= k < fs.len() && fs[k] == names[i];
                    assert($todo@[k]@ == fs[k]);
                }
                assert forall|n: Seq<char>| #[trigger] shells@.contains_key(n) <==> t.contains_key(n) && !names.contains(n) by {
                    if t.contains_key(n) && names.contains(n) { let k = choose|k: int| 0 <= k < fs.len() && fs[k] == n; assert(fs[k] == n); }
                    if t.contains_key(n) && !names.contains(n) { assert forall|k: int| 0 <= k < fs.len() implies fs[k] != n by { assert(names.contains(fs[k])); } }
                }
            }
//@endfn
}
} // verus!
