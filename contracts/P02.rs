//@lits
//@include prelude/std.rs
//@include prelude/str.rs

verus! {

pub mod cmp {
    use vstd::prelude::*;
    pub use core::cmp::Ordering;
}
// ---------------------------------------------------------------- spec
pub open spec fn nums(s: Seq<char>) -> Seq<Option<i64>> {
    split_spec(s, '.').map_values(|p: Seq<char>| <i64 as FromStr>::parse_spec(p))
}
/// three numeric parts
pub open spec fn version(s: Seq<char>) -> Option<(int, int)> {
    let n = nums(s);
    if n.len() == 3 && n[0] is Some && n[1] is Some && n[2] is Some { Some((n[0]->0 as int, n[1]->0 as int)) } else { None }
}
pub open spec fn order(a: int, b: int) -> cmp::Ordering {
    if a < b { cmp::Ordering::Less } else if a == b { cmp::Ordering::Equal } else { cmp::Ordering::Greater }
}
/// 0.x releases break compatibility with x, later ones with the major number
pub open spec fn compat(a: (int, int), b: (int, int)) -> cmp::Ordering {
    if a.0 == 0 && b.0 == 0 { order(a.1, b.1) } else { order(a.0, b.0) }
}

pub mod shpool_protocol {
    use vstd::prelude::*;
    use super::*;
    pub uninterp spec fn own_version() -> Seq<char>;
    pub exec static VERSION: &'static str ensures VERSION@ == own_version() { crate::version_const() }
//@item shpool-protocol/src/lib.rs :: struct VersionHeader
}
use shpool_protocol::VersionHeader;
/// the client's own protocol version: a cargo package version
#[verifier::external_body]
pub const fn version_const() -> (r: &'static str) ensures r@ == shpool_protocol::own_version() { unsafe { core::mem::transmute::<&'static prim_str, &'static str>("0") } }
pub mod io { use vstd::prelude::*; #[verifier::external_body] pub struct Error { _p: () } }
impl From<io::Error> for anyhow::Error { #[verifier::external_body] fn from(e: io::Error) -> (r: Self) { unimplemented!() } }
#[verifier::external_body]
pub struct UnixStream { _p: () }
/// what the daemon's greeting on this connection decodes to, if it decodes
pub uninterp spec fn greeting(s: &UnixStream) -> Option<VersionHeader>;
impl UnixStream {
    #[verifier::external_body]
    pub fn connect<P>(p: P) -> (r: Result<UnixStream, io::Error>) { unimplemented!() }
}
#[verifier::external_body]
pub fn decode_from(s: &UnixStream) -> (r: anyhow::Result<VersionHeader>)
    ensures (r is Ok) == (greeting(s) is Some), r is Ok ==> r->Ok_0 == greeting(s)->0
{ unimplemented!() }
pub struct Path {}
//@item libshpool/src/protocol.rs :: struct Client
//@item libshpool/src/protocol.rs :: enum ClientResult
impl Client {
//@fn libshpool/src/protocol.rs :: impl Client :: version_ord
//@ret r
//@cl 0 (q: Result<i64, ParseError>) ensures (q is Ok) == (<i64 as FromStr>::parse_spec($c1@) is Some), q is Ok ==> q->Ok_0 == <i64 as FromStr>::parse_spec($c1@)->0
//@cl 1 (q: Result<i64, ParseError>) ensures (q is Ok) == (<i64 as FromStr>::parse_spec($c1@) is Some), q is Ok ==> q->Ok_0 == <i64 as FromStr>::parse_spec($c1@)->0
//@bind CP `let ? = client_version`
//@bind DP `let ? = daemon_version`
//@spec
    ensures
        match (version($1@), version($2@)) {
            (Some(c), Some(d)) => r is Ok && r->Ok_0 == compat(c, d),
            _ => r is Err,
        }
//@at before 0 `if client_parts [ 0 ] == 0`
    proof {
        let ghost_c = nums($1@); let ghost_d = nums($2@);
        assert(ghost_c.len() == 3 && ghost_d.len() == 3);
        assert forall|i: int| 0 <= i < 3 implies ghost_c[i] == Some(#[trigger] $CP@[i]) by {}
        assert forall|i: int| 0 <= i < 3 implies ghost_d[i] == Some(#[trigger] $DP@[i]) by {}
        assert(ghost_c[2] == Some($CP@[2]) && ghost_d[2] == Some($DP@[2]));
        assert(version($1@) == Some(($CP@[0] as int, $CP@[1] as int)));
        assert(version($2@) == Some(($DP@[0] as int, $DP@[1] as int)));
    }
//@endfn

//@fn libshpool/src/protocol.rs :: impl Client :: new
//@ret r
//@spec
    ensures
        // a usable client without a warning only from a daemon with a compatible version
        r is Ok && r->Ok_0 is JustClient ==> {
            let g = greeting(&r->Ok_0->JustClient_0.stream);
            &&& g is Some && version(g->0.version@) is Some && version(shpool_protocol::own_version()) is Some
            &&& compat(version(shpool_protocol::own_version())->0, version(g->0.version@)->0) is Equal
        },
        // an unreadable greeting or another version still yields the client, with the warning
        r is Ok && r->Ok_0 is VersionMismatch ==> {
            let g = greeting(&r->Ok_0->VersionMismatch_client.stream);
            g is Some && version(g->0.version@) is Some && version(shpool_protocol::own_version()) is Some
                ==> !(compat(version(shpool_protocol::own_version())->0, version(g->0.version@)->0) is Equal)
        },
//@endfn
}
}
fn main() {}
