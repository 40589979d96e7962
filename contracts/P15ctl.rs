//@include prelude/std.rs
// How a client is let go of: by asking the thread that serves it or, if that one is busy, by hanging up on the client.
verus! {
pub struct Cv {
    /// the thread took the request to let go of its client
    pub asked: bool,
    /// it took too long over the request, or over its answer
    pub late: bool,
    /// its answer
    pub heard: Option<ClientConnectionStatus>,
    /// there is a client whose connection is known
    pub known: bool,
    /// it has ended
    pub gone: bool,
    /// whose connection was shut down
    pub cut: Option<int>,
}
#[verifier::external_body]
pub struct World { _p: () }
impl World { pub uninterp spec fn v(&self) -> Cv; }
pub assume_specification<T, E> [Result::<T, E>::unwrap_or](a: Result<T, E>, d: T) -> (r: T)
    where E: core::marker::Destruct, T: core::marker::Destruct,
    ensures r == (match a { Ok(v) => v, Err(_) => d });
pub mod time { pub use super::Duration; }
#[verifier::external_body]
pub struct Duration { _p: () }
impl Duration { #[verifier::external_body] pub const fn from_millis(m: u64) -> (r: Duration) { unimplemented!() } }
#[verifier::external_body]
pub fn patience() -> (r: Duration) { unimplemented!() }
pub mod net { pub enum Shutdown { Read, Write, Both } }
#[verifier::external_body]
pub struct UnixStream { _p: () }
impl UnixStream { pub uninterp spec fn id(&self) -> int; }
#[verifier::external_body]
pub fn shutdown_socket(w: &mut World, s: &UnixStream, how: net::Shutdown) -> (r: anyhow::Result<()>)
    // both ways, or the thread would stay stuck in its write; and only on a client that was asked about first, in vain
    requires how is Both, old(w).v().late, !old(w).v().gone
    ensures final(w).v() == (Cv { cut: Some(s.id()), ..old(w).v() })
{ unimplemented!() }
#[verifier::external_body]
pub struct NewClient { _p: () }
pub enum ClientConnectionMsg { New(NewClient), Disconnect, DisconnectExit(i32) }
//@item libshpool/src/daemon/shell.rs :: enum ClientConnectionStatus
pub mod crossbeam_channel {
    pub enum SendTimeoutError<T> { Timeout(T), Disconnected(T) }
    pub enum RecvTimeoutError { Timeout, Disconnected }
    pub struct RecvError;
}
#[verifier::external_body]
pub struct Asking { _p: () }
impl Asking {
    #[verifier::external_body]
    pub fn send_timeout(&self, w: &mut World, m: ClientConnectionMsg, t: Duration) -> (r: Result<(), crossbeam_channel::SendTimeoutError<ClientConnectionMsg>>)
        requires m is Disconnect, !old(w).v().asked, !old(w).v().gone
        ensures final(w).v() == (match r {
            Ok(_) => Cv { asked: true, ..old(w).v() },
            Err(crossbeam_channel::SendTimeoutError::Timeout(_)) => Cv { late: true, ..old(w).v() },
            Err(crossbeam_channel::SendTimeoutError::Disconnected(_)) => Cv { gone: true, ..old(w).v() },
        })
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Answers { _p: () }
impl Answers {
    #[verifier::external_body]
    pub fn recv_timeout(&self, w: &mut World, t: Duration) -> (r: Result<ClientConnectionStatus, crossbeam_channel::RecvTimeoutError>)
        requires old(w).v().asked, old(w).v().heard is None
        ensures final(w).v() == (match r {
            Ok(s) => Cv { heard: Some(s), ..old(w).v() },
            Err(crossbeam_channel::RecvTimeoutError::Timeout) => Cv { late: true, ..old(w).v() },
            Err(crossbeam_channel::RecvTimeoutError::Disconnected) => Cv { gone: true, ..old(w).v() },
        })
    { unimplemented!() }
    /// waits for as long as it takes
    #[verifier::external_body]
    pub fn recv(&self, w: &mut World) -> (r: Result<ClientConnectionStatus, crossbeam_channel::RecvError>)
        // the client, if there is one, no longer keeps the thread from answering
        requires old(w).v().asked, old(w).v().heard is None, old(w).v().cut is Some || !old(w).v().known
        ensures final(w).v() == (match r { Ok(s) => Cv { heard: Some(s), ..old(w).v() }, Err(_) => Cv { gone: true, ..old(w).v() } })
    { unimplemented!() }
}
pub struct ShellToClientCtl { pub client_connection: Asking, pub client_connection_ack: Answers, pub client_stream: Option<UnixStream> }
impl ShellToClientCtl {
//@fn libshpool/src/daemon/shell.rs :: ShellToClientCtl :: hang_up
//@ret r
//@sub `(&self)` => `(&self, w: &mut World)`
//@sub `shutdown_socket(` => `shutdown_socket(w, `
//@spec
        requires old(w).v().late, !old(w).v().gone
        ensures
            self.client_stream is Some ==> r is Detached && final(w).v() == (Cv { cut: Some(self.client_stream->0.id()), ..old(w).v() }),
            self.client_stream is None ==> r is DetachNone && final(w).v() == old(w).v(),
//@endfn
//@fn libshpool/src/daemon/shell.rs :: ShellToClientCtl :: disconnect_client
//@ret r
//@sub `(&self)` => `(&self, w: &mut World)`
//@sub `.send_timeout(` => `.send_timeout(w, `
//@sub `.recv_timeout(` => `.recv_timeout(w, `
//@sub `.recv()` => `.recv(w)`
//@sub `.hang_up()` => `.hang_up(w)`
//@sub `SHELL_TO_CLIENT_CTL_TIMEOUT` => `patience()`
//@spec
        requires
            old(w).v() == (Cv { asked: false, late: false, heard: None, known: self.client_stream is Some, gone: false, cut: None }),
        ensures ({ let v = final(w).v();
            // what it answers is so
            &&& v.heard is Some ==> r == v.heard->0
            &&& v.heard is None ==> (if v.cut is Some && !v.gone { r is Detached } else { r is DetachNone })
            &&& v.cut is Some ==> self.client_stream is Some && v.cut->0 == self.client_stream->0.id()
            // it only gives up on the client if there is none
            &&& v.heard is None && v.cut is None ==> v.gone || self.client_stream is None
            // and leaves no answer for the next one to find
            &&& v.asked ==> v.heard is Some || v.gone
        })
//@endfn
}
fn main() {}
} // verus!
