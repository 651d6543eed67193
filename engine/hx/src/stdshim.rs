//! What the runner and the command line see as `std`: output, exit, arguments, standard input and files are the harness's.
pub use ::std::*;

use ::std::cell::RefCell;

thread_local! {
    pub static OUT: RefCell<Vec<u8>> = const { RefCell::new(vec![]) };
    pub static ERR: RefCell<Vec<u8>> = const { RefCell::new(vec![]) };
    pub static ARGS: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
    pub static STDIN: RefCell<Vec<u8>> = const { RefCell::new(vec![]) };
    pub static FILES: RefCell<Vec<(String, Vec<u8>)>> = const { RefCell::new(vec![]) };
}

/// Payload of the panic that `process::exit` is turned into.
pub struct Exit(pub i32);

pub mod process {
    pub use ::std::process::*;
    pub fn exit(code: i32) -> ! {
        ::std::panic::resume_unwind(Box::new(super::Exit(code)))
    }
    pub fn abort() -> ! {
        exit(134)
    }
}

pub mod env {
    pub use ::std::env::*;
    pub fn args() -> ::std::vec::IntoIter<String> {
        super::ARGS.with_borrow(|a| a.clone()).into_iter()
    }
}

pub mod fs {
    pub use ::std::fs::*;
    pub struct File;
    impl File {
        pub fn open(name: impl AsRef<str>) -> ::std::io::Result<::std::io::Cursor<Vec<u8>>> {
            match super::FILES.with_borrow(|f| f.iter().find(|f| f.0 == name.as_ref()).map(|f| f.1.clone())) {
                Some(f) => Ok(::std::io::Cursor::new(f)),
                None => Err(::std::io::Error::from(::std::io::ErrorKind::NotFound)),
            }
        }
    }
}

pub mod io {
    pub use ::std::io::*;
    pub fn stdin() -> Cursor<Vec<u8>> {
        Cursor::new(super::STDIN.with_borrow(|s| s.clone()))
    }
    pub struct Stdout;
    pub struct Stderr;
    pub fn stdout() -> Stdout {
        Stdout
    }
    pub fn stderr() -> Stderr {
        Stderr
    }
    impl Write for Stdout {
        fn write(&mut self, buf: &[u8]) -> Result<usize> {
            super::OUT.with_borrow_mut(|o| o.extend_from_slice(buf));
            Ok(buf.len())
        }
        fn flush(&mut self) -> Result<()> {
            Ok(())
        }
    }
    impl Write for Stderr {
        fn write(&mut self, buf: &[u8]) -> Result<usize> {
            super::ERR.with_borrow_mut(|o| o.extend_from_slice(buf));
            Ok(buf.len())
        }
        fn flush(&mut self) -> Result<()> {
            Ok(())
        }
    }
    impl crate::GcCompat for Stdout {
        fn points_to(&self, _: &mut ::std::collections::HashSet<usize>) {}
    }
    impl crate::GcCompat for Stderr {
        fn points_to(&self, _: &mut ::std::collections::HashSet<usize>) {}
    }
}

/// Memory is not reclaimed during a run: values of the harness are in use.
pub fn mark_and_sweep<T>(_: &T) {}

pub macro eprintln($($t:tt)*) {{
    use ::std::io::Write as _;
    ::std::writeln!($crate::stdshim::io::Stderr, $($t)*).unwrap()
}}
pub macro eprint($($t:tt)*) {{
    use ::std::io::Write as _;
    ::std::write!($crate::stdshim::io::Stderr, $($t)*).unwrap()
}}
pub macro println($($t:tt)*) {{
    use ::std::io::Write as _;
    ::std::writeln!($crate::stdshim::io::Stdout, $($t)*).unwrap()
}}
pub macro print($($t:tt)*) {{
    use ::std::io::Write as _;
    ::std::write!($crate::stdshim::io::Stdout, $($t)*).unwrap()
}}

pub struct Ended {
    /// `None`: by returning
    pub code: Option<i32>,
    /// a panic
    pub panic: Option<String>,
    pub out: Vec<String>,
    pub err: Vec<String>,
}

/// Runs part of a command-line tool.
pub fn command(args: &[&str], stdin: Vec<u8>, files: Vec<(String, Vec<u8>)>, f: impl FnOnce()) -> Ended {
    ARGS.set(args.iter().map(|s| s.to_string()).collect());
    STDIN.set(stdin);
    FILES.set(files);
    OUT.set(vec![]);
    ERR.set(vec![]);
    let mut end = Ended { code: None, panic: None, out: vec![], err: vec![] };
    match crate::kit::catch(move || match ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(f)) {
        Ok(()) => None,
        Err(e) => match e.downcast::<Exit>() {
            Ok(e) => Some(e.0),
            Err(e) => ::std::panic::resume_unwind(e),
        },
    }) {
        Ok(c) => end.code = c,
        Err(p) => end.panic = Some(p),
    }
    let lines = |v: Vec<u8>| String::from_utf8_lossy(&v).lines().map(|s| s.to_string()).collect();
    end.out = lines(OUT.take());
    end.err = lines(ERR.take());
    end
}
