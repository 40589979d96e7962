// The trie of libshpool/src/daemon/trie.rs under contract.
use std::collections::HashMap;
use std::hash;
verus! {

#[derive(Copy, Clone)]
//@item libshpool/src/daemon/trie.rs :: enum TrieCursor
//@item libshpool/src/daemon/trie.rs :: struct TrieNode
//@item libshpool/src/daemon/trie.rs :: struct Trie

/// contract of the backing table
pub trait TrieTab<Idx>: Sized {
    spec fn tab_wf(&self) -> bool;
    spec fn find(&self, i: Idx) -> Option<usize>;
    fn new() -> (r: Self)
        ensures r.tab_wf(), forall|i: Idx| #[trigger] r.find(i) is None;
    fn get(&self, index: Idx) -> (r: Option<&usize>)
        requires self.tab_wf()
        ensures
            (r is Some) == (self.find(index) is Some),
            r is Some ==> *(r->0) == self.find(index)->0;
    fn set(&mut self, index: Idx, elem: usize)
        requires old(self).tab_wf()
        ensures final(self).tab_wf(), forall|i: Idx| #[trigger] final(self).find(i) == (if i == index { Some(elem) } else { old(self).find(i) });
}

impl TrieTab<u8> for Vec<Option<usize>> {
    open spec fn tab_wf(&self) -> bool { self@.len() == 256 }
    open spec fn find(&self, i: u8) -> Option<usize> { self@[i as int] }
//@fn libshpool/src/daemon/trie.rs :: impl TrieTab < u8 > for Vec :: new
//@ret r
//@endfn
//@fn libshpool/src/daemon/trie.rs :: impl TrieTab < u8 > for Vec :: get
//@ret r
//@endfn
//@fn libshpool/src/daemon/trie.rs :: impl TrieTab < u8 > for Vec :: set
//@endfn
}

/// char's Eq and Hash are the derived ones
pub axiom fn char_keys() ensures vstd::std_specs::hash::obeys_key_model::<char>();

impl TrieTab<char> for HashMap<char, usize> {
    open spec fn tab_wf(&self) -> bool { true }
    open spec fn find(&self, i: char) -> Option<usize> { if self@.contains_key(i) { Some(self@[i]) } else { None } }
//@fn libshpool/src/daemon/trie.rs :: TrieTab < Sym > for HashMap :: new
//@ret r
//@endfn
//@fn libshpool/src/daemon/trie.rs :: TrieTab < Sym > for HashMap :: get
//@sub `Sym` => `char`
//@ret r
//@at start
    proof { char_keys(); broadcast use vstd::std_specs::hash::group_hash_axioms; }
//@endfn
//@fn libshpool/src/daemon/trie.rs :: TrieTab < Sym > for HashMap :: set
//@sub `Sym` => `char`
//@at start
    proof { char_keys(); broadcast use vstd::std_specs::hash::group_hash_axioms; }
//@endfn
}

impl<Sym, V, TT> TrieNode<Sym, V, TT>
where
    TT: TrieTab<Sym>,
{
//@fn libshpool/src/daemon/trie.rs :: > TrieNode < :: new
//@ret r
//@spec
    ensures r.value == $1, r.tab.tab_wf(), forall|c: Sym| #[trigger] r.tab.find(c) is None
//@endfn
}

// ---------------------------------------------------------------- spec
impl<Sym, V, TT: TrieTab<Sym>> Trie<Sym, V, TT> {
    /// paths[i] is the one sequence that leads from the root to node i
    pub open spec fn wf_paths(&self, paths: Seq<Seq<Sym>>) -> bool {
        &&& paths.len() == self.nodes@.len()
        &&& self.nodes@.len() >= 1
        &&& paths[0] == Seq::<Sym>::empty()
        &&& forall|i: int| 0 <= i < self.nodes@.len() ==> (#[trigger] self.nodes@[i]).tab.tab_wf()
        &&& forall|i: int, c: Sym| 0 <= i < self.nodes@.len() && (#[trigger] self.nodes@[i].tab.find(c)) is Some
            ==> 0 < self.nodes@[i].tab.find(c)->0 < self.nodes@.len()
                && paths[self.nodes@[i].tab.find(c)->0 as int] == paths[i].push(c)
    }
    pub open spec fn wf(&self) -> bool { exists|p: Seq<Seq<Sym>>| self.wf_paths(p) }

    /// the node reached from the root by s
    pub open spec fn walk(&self, s: Seq<Sym>) -> Option<int>
        decreases s.len()
    {
        if s.len() == 0 { Some(0int) }
        else {
            match self.walk(s.drop_last()) {
                None => None,
                Some(i) => if self.nodes@[i].tab.find(s.last()) is Some { Some(self.nodes@[i].tab.find(s.last())->0 as int) } else { None },
            }
        }
    }
    /// some inserted sequence starts with s
    pub open spec fn known(&self, s: Seq<Sym>) -> bool { self.walk(s) is Some }
    /// the value stored under s
    pub open spec fn at(&self, s: Seq<Sym>) -> Option<V> {
        match self.walk(s) { Some(i) => self.nodes@[i].value, None => None }
    }
    /// s is where the cursor stands
    pub open spec fn stands(&self, c: TrieCursor, s: Seq<Sym>) -> bool {
        match c {
            TrieCursor::Start => s.len() == 0,
            TrieCursor::Match { idx, is_partial } => s.len() > 0 && self.walk(s) == Some(idx as int) && is_partial == (self.at(s) is None),
            TrieCursor::NoMatch => false,
        }
    }

    pub proof fn lemma_walk_bound(&self, s: Seq<Sym>)
        requires self.wf()
        ensures self.walk(s) is Some ==> 0 <= self.walk(s)->0 < self.nodes@.len()
        decreases s.len()
    {
        if s.len() > 0 { self.lemma_walk_bound(s.drop_last()); let p = choose|p: Seq<Seq<Sym>>| self.wf_paths(p); assert(self.wf_paths(p)); }
    }
    pub proof fn lemma_walk_path(&self, p: Seq<Seq<Sym>>, s: Seq<Sym>)
        requires self.wf_paths(p)
        ensures self.walk(s) is Some ==> 0 <= self.walk(s)->0 < self.nodes@.len() && p[self.walk(s)->0] == s
        decreases s.len()
    {
        if s.len() > 0 { self.lemma_walk_path(p, s.drop_last()); assert(s.drop_last().push(s.last()) =~= s); }
        else { assert(s =~= Seq::<Sym>::empty()); }
    }
    /// a known sequence has known prefixes
    pub proof fn lemma_known_prefix(&self, s: Seq<Sym>, k: int)
        requires self.known(s), 0 <= k <= s.len()
        ensures self.known(s.take(k))
        decreases s.len()
    {
        if k < s.len() { self.lemma_known_prefix(s.drop_last(), k); assert(s.drop_last().take(k) =~= s.take(k)); }
        else { assert(s.take(k) =~= s); }
    }
    /// post is pre with one fresh child of node cur hung under symbol c
    pub open spec fn grown(pre: &Self, post: &Self, cur: int, c: Sym) -> bool {
        let n = pre.nodes@.len() as int;
        &&& post.nodes@.len() == n + 1
        &&& 0 <= cur < n
        &&& pre.nodes@[cur].tab.find(c) is None
        &&& forall|i: int| 0 <= i < n && i != cur ==> (#[trigger] post.nodes@[i]) == pre.nodes@[i]
        &&& post.nodes@[cur].value == pre.nodes@[cur].value
        &&& post.nodes@[cur].tab.tab_wf()
        &&& forall|d: Sym| (#[trigger] post.nodes@[cur].tab.find(d)) == (if d == c { Some(n as usize) } else { pre.nodes@[cur].tab.find(d) })
        &&& post.nodes@[n].value is None
        &&& post.nodes@[n].tab.tab_wf()
        &&& forall|d: Sym| (#[trigger] post.nodes@[n].tab.find(d)) is None
    }
    pub proof fn lemma_grown_walk(pre: &Self, post: &Self, cur: int, c: Sym, s0: Seq<Sym>, s: Seq<Sym>)
        requires pre.wf(), Self::grown(pre, post, cur, c), pre.walk(s0) == Some(cur), pre.nodes@.len() <= usize::MAX,
        ensures post.walk(s) == (if s == s0.push(c) { Some(pre.nodes@.len() as int) } else { pre.walk(s) })
        decreases s.len()
    {
        let n = pre.nodes@.len() as int;
        assert(s0.push(c).drop_last() =~= s0);
        if s.len() > 0 {
            let q = s.drop_last();
            Self::lemma_grown_walk(pre, post, cur, c, s0, q);
            assert(s =~= q.push(s.last()));
            let p = choose|p: Seq<Seq<Sym>>| pre.wf_paths(p);
            pre.lemma_walk_path(p, q);
            pre.lemma_walk_path(p, s0);
            assert(pre.walk(s0.push(c)) is None);
            if q == s0.push(c) { assert(pre.walk(q) is None); assert(s != s0.push(c)) by { assert(s.len() == s0.len() + 2); } }
            else if pre.walk(q) == Some(cur) { assert(q == s0); if s.last() == c { assert(s == s0.push(c)); } else { assert(s != s0.push(c)) by { assert(s0.push(c).last() == c); } } }
            else { assert(s != s0.push(c)) by { if s == s0.push(c) { assert(q == s0); } } }
        }
    }
    pub proof fn lemma_grown(pre: &Self, post: &Self, cur: int, c: Sym, s0: Seq<Sym>)
        requires pre.wf(), Self::grown(pre, post, cur, c), pre.walk(s0) == Some(cur), pre.nodes@.len() <= usize::MAX,
        ensures
            post.wf(),
            post.walk(s0.push(c)) == Some(pre.nodes@.len() as int),
            forall|s: Seq<Sym>| #[trigger] post.at(s) == pre.at(s),
            forall|s: Seq<Sym>| #[trigger] post.known(s) <==> pre.known(s) || s == s0.push(c),
    {
        let n = pre.nodes@.len() as int;
        assert(s0.push(c).drop_last() =~= s0);
        assert forall|s: Seq<Sym>| #[trigger] post.at(s) == pre.at(s) by {
            Self::lemma_grown_walk(pre, post, cur, c, s0, s);
            pre.lemma_walk_bound(s);
            assert(pre.walk(s0.push(c)) is None);
        }
        assert forall|s: Seq<Sym>| #[trigger] post.known(s) <==> pre.known(s) || s == s0.push(c) by {
            Self::lemma_grown_walk(pre, post, cur, c, s0, s);
        }
        Self::lemma_grown_walk(pre, post, cur, c, s0, s0.push(c));
        let p = choose|p: Seq<Seq<Sym>>| pre.wf_paths(p);
        pre.lemma_walk_path(p, s0);
        let p2 = p.push(s0.push(c));
        assert forall|i: int, d: Sym| 0 <= i < post.nodes@.len() && (#[trigger] post.nodes@[i].tab.find(d)) is Some
            implies 0 < post.nodes@[i].tab.find(d)->0 < post.nodes@.len() && p2[post.nodes@[i].tab.find(d)->0 as int] == p2[i].push(d) by {
            if i != cur && i < n { assert(post.nodes@[i] == pre.nodes@[i]); }
            if i < n && !(i == cur && d == c) { assert(pre.nodes@[i].tab.find(d) is Some); }
        }
        assert(post.wf_paths(p2));
    }
    /// post is pre with another value in node cur
    pub proof fn lemma_valued(pre: &Self, post: &Self, cur: int, v: V, s0: Seq<Sym>)
        requires
            pre.wf(), pre.walk(s0) == Some(cur), post.nodes@.len() == pre.nodes@.len(), 0 <= cur < pre.nodes@.len(),
            forall|i: int| 0 <= i < pre.nodes@.len() && i != cur ==> (#[trigger] post.nodes@[i]) == pre.nodes@[i],
            post.nodes@[cur].tab == pre.nodes@[cur].tab, post.nodes@[cur].value == Some(v),
        ensures
            post.wf(),
            forall|s: Seq<Sym>| #[trigger] post.at(s) == (if s == s0 { Some(v) } else { pre.at(s) }),
            forall|s: Seq<Sym>| #[trigger] post.known(s) <==> pre.known(s),
    {
        let p = choose|p: Seq<Seq<Sym>>| pre.wf_paths(p);
        assert(forall|i: int| 0 <= i < pre.nodes@.len() ==> (#[trigger] post.nodes@[i]).tab == pre.nodes@[i].tab);
        assert(post.wf_paths(p));
        assert forall|s: Seq<Sym>| #[trigger] post.at(s) == (if s == s0 { Some(v) } else { pre.at(s) }) by {
            Self::lemma_valued_walk(pre, post, s);
            pre.lemma_walk_path(p, s);
            pre.lemma_walk_path(p, s0);
        }
        assert forall|s: Seq<Sym>| #[trigger] post.known(s) <==> pre.known(s) by { Self::lemma_valued_walk(pre, post, s); }
    }
    pub proof fn lemma_valued_walk(pre: &Self, post: &Self, s: Seq<Sym>)
        requires pre.wf(), post.nodes@.len() == pre.nodes@.len(), forall|i: int| 0 <= i < pre.nodes@.len() ==> (#[trigger] post.nodes@[i]).tab == pre.nodes@[i].tab,
        ensures post.walk(s) == pre.walk(s)
        decreases s.len()
    {
        if s.len() > 0 { Self::lemma_valued_walk(pre, post, s.drop_last()); pre.lemma_walk_bound(s.drop_last()); }
    }
}

impl<Sym, V, TT> Trie<Sym, V, TT>
where
    TT: TrieTab<Sym>,
    Sym: Copy,
{
//@fn libshpool/src/daemon/trie.rs :: > Trie < :: new
//@ret r
//@spec
    ensures r.wf(), forall|s: Seq<Sym>| #[trigger] r.known(s) <==> s.len() == 0, forall|s: Seq<Sym>| #[trigger] r.at(s) is None
//@at tail
        proof { Self::lemma_fresh(&__r); }
//@endfn

//@fn libshpool/src/daemon/trie.rs :: > Trie < :: insert
//@sub `< Seq : Iterator < Item = Sym > >` => ``
//@sub `seq : Seq` => `seq : Vec<Sym>`
//@bind CUR `let mut ? = 0`
//@spec
    requires old(self).wf()
    ensures
        final(self).wf(),
        forall|s: Seq<Sym>| #[trigger] final(self).at(s) == (if s == $1@ { Some($2) } else { old(self).at(s) }),
        forall|s: Seq<Sym>| #[trigger] final(self).known(s) <==> old(self).known(s) || s.is_prefix_of($1@),
//@loop 0 iter=it
    invariant
        it.seq() == $1@,
        old(self).wf(), self.wf(),
        self.walk($1@.take(it.index() as int)) == Some($CUR as int),
        $CUR < self.nodes@.len(),
        forall|s: Seq<Sym>| #[trigger] self.at(s) == old(self).at(s),
        forall|s: Seq<Sym>| #[trigger] self.known(s) <==> old(self).known(s) || s.is_prefix_of($1@.take(it.index() as int)),
//@at loopstart 0
    let ghost pre = *self;
    let ghost cur0 = $CUR as int;
    let ghost k = it.index() as int;
    proof {
        pre.lemma_walk_bound($1@.take(k));
        assert($1@.take(k + 1) =~= $1@.take(k).push($1@[k]));
        assert($1@.take(k + 1).drop_last() =~= $1@.take(k));
        assert forall|s: Seq<Sym>| #[trigger] s.is_prefix_of($1@.take(k + 1)) <==> s.is_prefix_of($1@.take(k)) || s == $1@.take(k + 1) by {
            if s.is_prefix_of($1@.take(k + 1)) && s.len() > k { assert(s =~= $1@.take(k + 1)); }
            if s.is_prefix_of($1@.take(k + 1)) && s.len() <= k { assert(s =~= $1@.take(k).take(s.len() as int)); }
            if s.is_prefix_of($1@.take(k)) { assert(s =~= $1@.take(k + 1).take(s.len() as int)); }
        }
    }
//@at loopend 0
    proof {
        if pre.nodes@[cur0].tab.find($1@[k]) is Some {
            assert(*self == pre);
        } else {
            Self::lemma_grown(&pre, self, cur0, $1@[k], $1@.take(k));
        }
    }
//@at loopafter 0
    let ghost pre = *self;
    proof { assert($1@.take($1@.len() as int) =~= $1@); pre.lemma_walk_bound($1@); }
//@at end
    proof { Self::lemma_valued(&pre, self, $CUR as int, $2, $1@); }
//@endfn

//@fn libshpool/src/daemon/trie.rs :: > Trie < :: advance
//@ret r
//@spec
    requires self.wf(), $1 is NoMatch || exists|s: Seq<Sym>| self.stands($1, s)
    ensures
        $1 is NoMatch ==> r is NoMatch,
        forall|s: Seq<Sym>| #[trigger] self.stands($1, s) ==>
        if self.known(s.push($2)) { self.stands(r, s.push($2)) } else { r is NoMatch }
//@at start
    proof {
        assert forall|s: Seq<Sym>| #[trigger] self.stands($1, s) implies self.walk(s) is Some && 0 <= self.walk(s)->0 < self.nodes@.len() by {
            self.lemma_walk_bound(s);
        }
        assert forall|s: Seq<Sym>| #[trigger] s.push($2).drop_last() == s by { assert(s.push($2).drop_last() =~= s); }
        assert forall|s: Seq<Sym>| #[trigger] self.stands($1, s) implies 0 <= self.walk(s.push($2))->0 < self.nodes@.len() || self.walk(s.push($2)) is None by {
            self.lemma_walk_bound(s.push($2));
        }
    }
//@endfn

//@fn libshpool/src/daemon/trie.rs :: > Trie < :: get
//@ret r
//@spec
    requires self.wf(), $1 is NoMatch || exists|s: Seq<Sym>| self.stands($1, s)
    ensures
        $1 is Start || $1 is NoMatch ==> r is None,
        forall|s: Seq<Sym>| #[trigger] self.stands($1, s) && s.len() > 0 ==>
            (r is Some) == (self.at(s) is Some) && (r is Some ==> *(r->0) == self.at(s)->0)
//@at start
    proof {
        assert forall|s: Seq<Sym>| #[trigger] self.stands($1, s) implies 0 <= self.walk(s)->0 < self.nodes@.len() by { self.lemma_walk_bound(s); }
    }
//@endfn

    pub proof fn lemma_fresh(r: &Self)
        requires r.nodes@.len() == 1, r.nodes@[0].value is None, r.nodes@[0].tab.tab_wf(), (forall|c: Sym| #[trigger] r.nodes@[0].tab.find(c) is None)
        ensures r.wf(), forall|s: Seq<Sym>| #[trigger] r.known(s) <==> s.len() == 0, forall|s: Seq<Sym>| #[trigger] r.at(s) is None
    {
        assert(r.wf_paths(seq![Seq::<Sym>::empty()]));
        assert forall|s: Seq<Sym>| #[trigger] r.known(s) <==> s.len() == 0 by { Self::lemma_fresh_walk(r, s); }
        assert forall|s: Seq<Sym>| #[trigger] r.at(s) is None by { Self::lemma_fresh_walk(r, s); }
    }
    pub proof fn lemma_fresh_walk(r: &Self, s: Seq<Sym>)
        requires r.nodes@.len() == 1, (forall|c: Sym| #[trigger] r.nodes@[0].tab.find(c) is None)
        ensures r.walk(s) == (if s.len() == 0 { Some(0int) } else { None::<int> })
        decreases s.len()
    {
        if s.len() > 0 { Self::lemma_fresh_walk(r, s.drop_last()); }
    }
}
} // verus!
