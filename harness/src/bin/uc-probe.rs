//! A program for configurations to run. Interp's Probe says what it does with its arguments, one after the other.
use std::io::{Read, Write};
use std::os::unix::ffi::{OsStrExt, OsStringExt};

const CHUNK: usize = 65536;

fn drain() {let _ = std::io::copy(&mut std::io::stdin().lock(), &mut std::io::sink());}

fn main() {
    let mut out = std::io::stdout().lock();
    let mut polite = true;
    for arg in std::env::args_os().skip(1) {
        let arg = arg.into_vec();
        let res = match &*arg {
            b"d" => out.write_all(std::env::current_dir().map(|x| x.into_os_string().into_vec()).unwrap_or_default().as_slice()),
            b"i" => std::io::copy(&mut std::io::stdin().lock(), &mut out).map(|_| ()),
            b"b" => out.write_all(b"\xff"),
            b"k" => {
                let _ = out.flush();
                if polite {drain();}
                let _ = std::process::Command::new("sh").args(["-c", "kill -9 $PPID"]).status();
                Ok(())
            }
            // one pipe's worth of reading or writing; "q": what is not read stays unread
            b"r" => {let mut b = vec![0; CHUNK]; std::io::stdin().lock().read_exact(&mut b)}
            b"w" => out.write_all(&[b'w'; CHUNK]),
            b"q" => {polite = false; Ok(())}
            _ if arg.starts_with(b"o:") => out.write_all(&arg[2..]),
            _ if arg.starts_with(b"s:") => std::io::stderr().write_all(&arg[2..]),
            _ if arg.starts_with(b"e:") => out.write_all(std::env::var_os(std::ffi::OsStr::from_bytes(&arg[2..])).map_or(b"~".to_vec(), OsStringExt::into_vec).as_slice()),
            _ if arg.starts_with(b"x:") => {
                let _ = out.flush();
                if polite {drain();}
                std::process::exit(String::from_utf8_lossy(&arg[2..]).parse().unwrap_or(99))
            }
            _ => out.write_all(b"[").and_then(|()| out.write_all(&arg)).and_then(|()| out.write_all(b"]"))
        };
        if res.is_err() {std::process::exit(98);}
    }
    let _ = out.flush();
    if polite {drain();}
}
