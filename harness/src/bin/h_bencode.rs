// decode / encode / info
include!(concat!(env!("OUT_DIR"), "/mods.rs"));
#[path = "../common_io.rs"]
mod common_io;

use bencode::decode::Decoder;
use bencode::encode::{encode_dict_entry, Encode};
use bencode::metainfo::Metainfo;
use common_io::{hex, unhex};
use serde_json::{json, Value};
use std::collections::HashMap;

// A value whose every node is encoded by the implementation of its type.
enum V {
    Int(usize),
    Bytes(Vec<u8>),
    Text(String),
    List(Vec<V>),
    Dict(HashMap<String, V>),
    Opt(Option<Box<V>>),
}

impl Encode for V {
    fn encode(&self) -> Vec<u8> {
        match self {
            V::Int(n) => n.encode(),
            V::Bytes(b) => b.encode(),
            V::Text(s) => s.encode(),
            V::List(l) => l.encode(),
            V::Dict(d) => d.encode(),
            V::Opt(None) => Option::<usize>::None.encode(),
            V::Opt(Some(v)) => Some(Own(v)).encode(),
        }
    }
}

struct Own<'a>(&'a V);
impl Encode for Own<'_> {
    fn encode(&self) -> Vec<u8> {
        self.0.encode()
    }
}

fn to_v(v: &Value) -> V {
    let (k, x) = v.as_object().unwrap().iter().next().unwrap();
    match k.as_str() {
        "i" => V::Int(x.as_str().unwrap().parse().unwrap()),
        "s" => V::Bytes(unhex(x.as_str().unwrap())),
        "t" => V::Text(String::from_utf8(unhex(x.as_str().unwrap())).unwrap()),
        "l" => V::List(x.as_array().unwrap().iter().map(to_v).collect()),
        "d" => V::Dict(
            x.as_array().unwrap().iter()
                .map(|e| (String::from_utf8(unhex(e[0].as_str().unwrap())).unwrap(), to_v(&e[1])))
                .collect(),
        ),
        "o" => V::Opt(if x.is_null() { None } else { Some(Box::new(to_v(x))) }),
        _ => panic!("bad value"),
    }
}

fn from_m(m: &Metainfo) -> Value {
    #[allow(unreachable_patterns)]
    match m {
        Metainfo::Integer(n) => json!({"i": n.to_string()}),
        Metainfo::String(b) => json!({"s": hex(b)}),
        Metainfo::List(l) => json!({"l": l.iter().map(from_m).collect::<Vec<_>>()}),
        Metainfo::Dictionary(d) => {
            let mut e: Vec<_> = d.iter().collect();
            e.sort_by(|a, b| a.0.as_bytes().cmp(b.0.as_bytes()));
            json!({"d": e.iter().map(|(k, v)| json!([hex(k.as_bytes()), from_m(v)])).collect::<Vec<_>>()})
        }
        other => {
            let s = format!("{other:?}");
            let n: String = s.chars().filter(|c| c.is_ascii_digit() || *c == '-').collect();
            if n.is_empty() { json!({"x": s}) } else { json!({"i": n}) }
        }
    }
}

fn handle(req: &Value) -> Value {
    match req["op"].as_str().unwrap() {
        "dec" => {
            let mut d = Decoder::init(unhex(req["hex"].as_str().unwrap()));
            match d.decode() {
                Ok(m) => json!({"ok": from_m(&m), "n": d.get_total_parsed_bytes()}),
                Err(_) => json!({"err": true}),
            }
        }
        "enc" => json!({"hex": hex(&to_v(&req["v"]).encode())}),
        "str" => {
            let s = String::from_utf8(unhex(req["hex"].as_str().unwrap())).unwrap();
            json!({"hex": hex(&s.as_str().encode())})
        }
        "entry" => {
            let k = String::from_utf8(unhex(req["k"].as_str().unwrap())).unwrap();
            json!({"hex": hex(&encode_dict_entry(&k, &to_v(&req["v"])))})
        }
        "info" => match torrent::info::Info::from_bytes(unhex(req["hex"].as_str().unwrap())) {
            Ok(i) => json!({"hex": hex(&i.encode()), "hash": hex(&i.compute_info_hash())}),
            Err(_) => json!({"err": true}),
        },
        x => panic!("bad op {x}"),
    }
}

fn main() {
    common_io::serve(handle);
}
