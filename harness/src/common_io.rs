// One JSON request per line on stdin, one JSON reply per line on stdout.
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

pub fn serve(handle: impl Fn(&Value) -> Value) {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    let mut out = stdout.lock();
    for line in stdin.lock().lines() {
        let req: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let rep = match catch_unwind(AssertUnwindSafe(|| handle(&req))) {
            Ok(v) => v,
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
                json!({"panic": m.unwrap_or_default()})
            }
        };
        writeln!(out, "{rep}").unwrap();
        out.flush().unwrap();
    }
}
