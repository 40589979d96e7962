verus! {
/// the names answered with b
pub open spec fn pick(names: Seq<Seq<char>>, out: Seq<bool>, b: bool) -> Seq<Seq<char>>
    decreases names.len()
{
    if names.len() == 0 { Seq::empty() } else { let p = pick(names.drop_last(), out.drop_last(), b); if out.last() == b { p.push(names.last()) } else { p } }
}
pub open spec fn ids(names: Seq<Seq<char>>, t: Map<Seq<char>, int>) -> Seq<int> { names.map_values(|n: Seq<char>| t[n]) }
/// everyone listed was asked; those that had no client to let go are `idle`
pub open spec fn parted_as(out: Seq<bool>, names: Seq<Seq<char>>, v: Wv, idle: Seq<Seq<char>>) -> bool {
    let f = found(names, v.took);
    out.len() == f.len() && idle == pick(f, out, false) && v.freed == ids(pick(f, out, true), v.took) && v.asked == ids(f, v.took)
        && v.noted == v.freed.map_values(|i: int| false)
}
impl Server {
//@fn libshpool/src/daemon/server.rs :: handle_detach
//@ret r
//@scoped `self.shells.lock(` => `w.unlock(&$g);`
//@sub `&self, mut stream` => `&self, w: &mut World, mut stream`
//@sub `self.shells.lock(` => `self.shells.lock(w`
//@sub `shells.get(` => `shells.get(w, `
//@sub `shells.remove(` => `shells.remove(w, `
//@sub `write_reply(` => `write_reply(w, `
//@sub `.publish(` => `.publish(w, `
//@sub `.disconnect_client(` => `.disconnect_client(w`
//@sub `.record_detached(` => `.record_detached(w`
//@bind nf `let mut ? = vec![];`
//@bind idle 1 `let mut ? = vec![];`
//@spec
        requires fresh_world(old(w).v()),
        ensures
            P23() ==> final(w).v().owed.len() == 0 && final(w).v().said.len() == 0,
            P15() ==> final(w).v().left == final(w).v().took,
            P15() && r is Ok ==> exists|out: Seq<bool>, idle: Seq<Seq<char>>| #[trigger] parted_as(out, texts(request.sessions@), final(w).v(), idle)
                && final(w).v().replies == seq![Rep::Detach(missing(texts(request.sessions@), final(w).v().took), idle)],
//@at start
        let ghost names = texts(request.sessions@);
        let ghost mut t = Map::<Seq<char>, int>::empty();
        let ghost mut out = Seq::<bool>::empty();
        let ghost mut last = Seq::<Seq<char>>::empty();
//@at loopbefore 0
            proof {
                t = shells@; assert(names.take(0) =~= Seq::empty()); assert(texts($nf@) =~= Seq::empty()); assert(texts($idle@) =~= Seq::empty());
                assert(ids(Seq::empty(), t) =~= Seq::empty()); assert(w.v().freed.map_values(|i: int| false) =~= Seq::empty());
            }
//@loop 0 iter=it
            invariant
                texts(it.seq()) == names, names == texts(request.sessions@), shells@ == t, w.v().took == t,
                w.v().replies.len() == 0, w.v().owed.len() == 0, w.v().said.len() == 0, w.v().present is None,
                texts($nf@) == missing(names.take(it.index() as int), t),
                parted_as(out, names.take(it.index() as int), w.v(), texts($idle@)),
//@at loopstart 0
                let ghost i = it.index() as int;
                let ghost (nf0, idle0, w0, f0, out0) = ($nf@, $idle@, w.v(), found(names.take(i), t), out);
                proof {
                    assert(names[i] == it.seq()[i]@);
                    assert(request.sessions@[i]@ == names[i]);
                    assert(names.take(i + 1).drop_last() =~= names.take(i));
                }
//@at loopend 0
                proof {
                    let f1 = found(names.take(i + 1), t);
                    if t.contains_key(names[i]) {
                        assert(f1 == f0.push(names[i]));
                        assert(ids(f1, t) =~= ids(f0, t).push(t[names[i]]));
                        out = out0.push(w.v().freed.len() > w0.freed.len());
                        assert(out.drop_last() =~= out0);
                        assert(f1.drop_last() =~= f0);
                        let (p1, p0) = (pick(f0, out0, true), pick(f1, out, true));
                        if out.last() {
                            assert(ids(p0, t) =~= ids(p1, t).push(t[names[i]]));
                            assert(w.v().freed.map_values(|i: int| false) =~= w0.freed.map_values(|i: int| false).push(false));
                        } else {
                            assert(texts($idle@) =~= texts(idle0).push(names[i]));
                        }
                    } else { assert(texts($nf@) =~= texts(nf0).push(names[i])); }
                }
//@at loopafter 0
            proof { assert(names.take(names.len() as int) =~= names); last = texts($idle@); assert(parted_as(out, names, w.v(), last)); }
//@at tail
        proof { assert(parted_as(out, names, w.v(), last)); assert(w.v().replies =~= seq![Rep::Detach(missing(names, t), last)]); }
//@endfn
}
} // verus!
