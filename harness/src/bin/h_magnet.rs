include!(concat!(env!("OUT_DIR"), "/mods.rs"));
#[path = "../common_io.rs"]
mod common_io;

use common_io::{hex, unhex};
use serde_json::{json, Value};

fn handle(req: &Value) -> Value {
    match torrent::magnet::parse_magnet(unhex(req["hex"].as_str().unwrap())) {
        Ok(m) => json!({"ok": hex(&m.get_info_hash())}),
        Err(_) => json!({"err": true}),
    }
}

fn main() {
    common_io::serve(handle);
}
