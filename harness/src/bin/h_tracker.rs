// peers of one tracker, over http or udp
include!(concat!(env!("OUT_DIR"), "/mods.rs"));
#[path = "../common_io.rs"]
mod common_io;

use common_io::unhex;
use serde_json::{json, Value};

fn handle(req: &Value) -> Value {
    let url = match url::Url::parse(req["url"].as_str().unwrap()) {
        Ok(u) => u,
        Err(_) => return json!({"badurl": true}),
    };
    let hash = unhex(req["hash"].as_str().unwrap());
    let t = std::time::Instant::now();
    let r = actix::System::new().block_on(async { tracker::get_peers_by_tracker(&url, &hash).await });
    let ms = t.elapsed().as_millis() as u64;
    match r {
        Ok(p) => json!({"ok": p.iter().map(|p| p.endpoint()).collect::<Vec<_>>(), "ms": ms}),
        Err(_) => json!({"err": true, "ms": ms}),
    }
}

fn main() {
    common_io::serve(handle);
}
