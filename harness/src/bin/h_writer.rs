// Piece writes in a fresh directory `root`/`cwd`; after every write, all that is under `root`.
include!(concat!(env!("OUT_DIR"), "/mods.rs"));
#[path = "../common_io.rs"]
mod common_io;

use common_io::{hex, unhex};
use serde_json::{json, Value};
use std::{fs, path::Path};
use torrent::file::File;

fn walk(dir: &Path, rel: &str, out: &mut Vec<Value>) {
    let mut names: Vec<_> = fs::read_dir(dir).unwrap().map(|e| e.unwrap()).collect();
    names.sort_by_key(|e| e.file_name());
    for e in names {
        let p = format!("{rel}{}", e.file_name().to_string_lossy());
        if e.file_type().unwrap().is_dir() {
            out.push(json!([p, Value::Null]));
            walk(&e.path(), &format!("{p}/"), out);
        } else {
            out.push(json!([p, hex(&fs::read(e.path()).unwrap())]));
        }
    }
}

fn handle(req: &Value) -> Value {
    let files: Vec<File> = req["files"].as_array().unwrap().iter()
        .map(|f| File::new(f[0].as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect(),
                           f[1].as_u64().unwrap() as usize))
        .collect();
    let pl = req["pl"].as_u64().unwrap() as usize;
    let root = req["root"].as_str().unwrap();
    let cwd = match req["cwd"].as_str() {
        Some(c) => format!("{root}/{c}"),
        None => root.to_string(),
    };
    fs::create_dir_all(&cwd).unwrap();
    std::env::set_current_dir(&cwd).unwrap();
    for f in req["pre"].as_array().unwrap_or(&vec![]) {
        let path = Path::new(&cwd).join(f[0].as_str().unwrap());
        fs::create_dir_all(path.parent().unwrap()).unwrap();
        fs::write(path, unhex(f[1].as_str().unwrap())).unwrap();
    }
    let mut steps = vec![];
    for w in req["writes"].as_array().unwrap() {
        let r = std::panic::catch_unwind(|| {
            let _ = torrent::writer::write(unhex(w[1].as_str().unwrap()), w[0].as_u64().unwrap() as usize, files.clone(), pl);
        });
        let mut t = vec![];
        if req["keep"].is_null() {
            walk(Path::new(root), "", &mut t);
        }
        steps.push(json!({"panic": r.is_err(), "tree": t}));
    }
    std::env::set_current_dir("/").unwrap();
    if req["keep"].is_null() {
        fs::remove_dir_all(root).unwrap();
    }
    json!({"steps": steps})
}

fn main() {
    common_io::serve(handle);
}
