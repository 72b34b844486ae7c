//! Probe server: drives the real dinero code (built from /repo) for the checks.
//!
//! One request per line on stdin, fields separated by \x1f; the answer is
//! `<rc> <stdout length> <stderr length>\n` followed by both texts.
//!   run  ARG...            dinero::run_app(["dinero", ARG...]); rc 0 Ok, 1 Err, 101 panic
//!   (api) money|bal|list|conv|query|expr|show ...   see api.rs
use std::io::{BufRead, Read, Seek, SeekFrom, Write};
use std::os::unix::io::AsRawFd;

#[cfg(feature = "api")]
mod api;

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
}

fn take(f: &mut std::fs::File) -> Vec<u8> {
    let mut v = vec![];
    f.seek(SeekFrom::Start(0)).unwrap();
    f.read_to_end(&mut v).unwrap();
    f.set_len(0).unwrap();
    f.seek(SeekFrom::Start(0)).unwrap();
    v
}

fn handle(fields: &[String]) -> i32 {
    match fields[0].as_str() {
        "run" => {
            let mut args = vec!["dinero".to_string()];
            args.extend_from_slice(&fields[1..]);
            match dinero::run_app(args) {
                Ok(_) => 0,
                Err(_) => 1,
            }
        }
        "ping" => 0,
        #[cfg(feature = "api")]
        _ => api::handle(fields),
        #[cfg(not(feature = "api"))]
        _ => 90,
    }
}

fn main() {
    let scratch = std::env::args().nth(1).expect("scratch prefix");
    let open = |s: &str| {
        std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(true)
            .open(format!("{}.{}", scratch, s))
            .unwrap()
    };
    let (mut fo, mut fe) = (open("out"), open("err"));
    let (o, e) = unsafe { (dup(1), dup(2)) };
    let mut real = unsafe { <std::fs::File as std::os::unix::io::FromRawFd>::from_raw_fd(o) };
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let fields: Vec<String> = line
            .split('\x1f')
            .map(|x| x.replace('\x1e', "\n"))
            .collect();
        unsafe {
            dup2(fo.as_raw_fd(), 1);
            dup2(fe.as_raw_fd(), 2);
        }
        let rc = match std::panic::catch_unwind(|| handle(&fields)) {
            Ok(rc) => rc,
            Err(_) => 101,
        };
        std::io::stdout().flush().unwrap();
        unsafe {
            dup2(o, 1);
            dup2(e, 2);
        }
        let (a, b) = (take(&mut fo), take(&mut fe));
        write!(real, "{} {} {}\n", rc, a.len(), b.len()).unwrap();
        real.write_all(&a).unwrap();
        real.write_all(&b).unwrap();
        real.flush().unwrap();
    }
}
