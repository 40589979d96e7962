#![verifier::allow(undeclared_external_trait)]
#![allow(non_camel_case_types, unused_imports, dead_code, unused_variables, unused_mut, unused_macros, unreachable_code, non_snake_case, unused_parens, unused_assignments, non_upper_case_globals, unused_must_use)]
use vstd::prelude::*;

// Log macros: the real ones format their arguments for the log and have no
// other effect; the extraction drops them.
macro_rules! trace { ($($t:tt)*) => { () } }
macro_rules! debug { ($($t:tt)*) => { () } }
macro_rules! info { ($($t:tt)*) => { () } }
macro_rules! warn { ($($t:tt)*) => { () } }
macro_rules! error { ($($t:tt)*) => { () } }
// Error constructors: the message text is dropped, the control flow is kept.
macro_rules! anyhow { ($($t:tt)*) => { crate::anyhow::mk_error() } }
macro_rules! bail { ($($t:tt)*) => { return Err(crate::anyhow::mk_error()) } }

verus! {

pub mod anyhow {
    use vstd::prelude::*;
    #[allow(unused_imports)]
    use super::*;
    /// Stand-in for anyhow::Error: an opaque value, only Ok / Err matters.
    #[verifier::external_body]
    pub struct Error { _p: () }
    pub type Result<T> = core::result::Result<T, Error>;

    #[verifier::external_body]
    pub fn mk_error() -> (r: Error) ensures !marked(r) { unimplemented!() }

    /// the error stands for a particular condition that its receiver looks for (downcast); context does not change that
    pub uninterp spec fn marked<E>(e: E) -> bool;

    /// anyhow::Context: turns the error into anyhow::Error, keeps Ok / Err.
    pub trait Context<T>: Sized {
        spec fn ctx_ok(&self) -> Option<T>;
        spec fn ctx_marked(&self) -> bool;
        fn context<C>(self, msg: C) -> (r: Result<T>)
            ensures
                (r is Ok) == (self.ctx_ok() is Some),
                r is Ok ==> r->Ok_0 == self.ctx_ok()->Some_0,
                r is Err ==> marked(r->Err_0) == self.ctx_marked();
        fn with_context<F>(self, msg: F) -> (r: Result<T>)
            ensures
                (r is Ok) == (self.ctx_ok() is Some),
                r is Ok ==> r->Ok_0 == self.ctx_ok()->Some_0,
                r is Err ==> marked(r->Err_0) == self.ctx_marked();
    }
    impl<T, E> Context<T> for core::result::Result<T, E> {
        open spec fn ctx_ok(&self) -> Option<T> { match self { Ok(v) => Some(*v), Err(_) => None } }
        open spec fn ctx_marked(&self) -> bool { match self { Ok(_) => false, Err(e) => marked(*e) } }
        #[verifier::external_body]
        fn context<C>(self, msg: C) -> (r: Result<T>) { unimplemented!() }
        #[verifier::external_body]
        fn with_context<F>(self, msg: F) -> (r: Result<T>) { unimplemented!() }
    }
    impl<T> Context<T> for Option<T> {
        open spec fn ctx_ok(&self) -> Option<T> { *self }
        open spec fn ctx_marked(&self) -> bool { false }
        #[verifier::external_body]
        fn context<C>(self, msg: C) -> (r: Result<T>) { unimplemented!() }
        #[verifier::external_body]
        fn with_context<F>(self, msg: F) -> (r: Result<T>) { unimplemented!() }
    }
}
pub use self::anyhow::Context;

} // verus!
