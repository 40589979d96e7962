verus! {

pub mod cmd_detach {
    use vstd::prelude::*;
    use super::*;
    use super::cli::*;
//@fn libshpool/src/detach.rs :: run
//@ret r
//@attr pubfn
//@sub `run<P>(mut sessions` => `run(c: &mut Conv, mut sessions`
//@sub `socket: P` => `socket: Path`
//@sub `where P: AsRef<Path>,` => ``
//@sub `err.downcast::<io::Error>()` => `err.as_io()`
//@sub `io_err.kind() == io::ErrorKind::NotFound` => `is_not_found(&io_err)`
//@sub `.write_connect_header(` => `.write_connect_header(c, `
//@sub `.read_reply()` => `.read_reply(c)`
//@spec
        requires silent(old(c).v())
        ensures
            final(c).v().sent.len() > 0 ==> final(c).v().sent == seq![Req::Detach(meant(texts(sessions@)))],
            r is Ok ==> did_all(final(c).v()) && final(c).v().sent.len() == 1 && meant(texts(sessions@)).len() > 0,
            did_all(final(c).v()) ==> r is Ok,
//@endfn
}
} // verus!
