//! vx: mechanical extraction of functions from the macro-expanded source of /repo into the
//! dialect that Verus accepts. It never looks at what a function is supposed to do.
//!
//! usage: vx REQUEST.json > RESULT.json
mod bounds;
mod index;
mod inline;
mod render;
mod print;
use serde_json::{json, Value};

fn main() {
    let path = std::env::args().nth(1).expect("request file");
    let req: Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    if req["bounds"].is_object() {
        println!("{}", bounds::compare(req["bounds"]["decls"].as_str().unwrap(), req["bounds"]["expanded"].as_str().unwrap()));
        return;
    }
    let mut ix = index::Index::default();
    for s in req["sources"].as_array().unwrap() {
        let file = s["file"].as_str().unwrap();
        let text = std::fs::read_to_string(file).unwrap();
        match syn::parse_file(&text) {
            Ok(f) => ix.add_crate(s["crate"].as_str().unwrap(), &f),
            Err(e) => {
                println!("{}", json!({"fatal": format!("cannot parse {}: {}", file, e)}));
                return;
            }
        }
    }
    if req["list"].as_bool() == Some(true) {
        let keys: Vec<_> = ix.funcs.iter().map(|f| f.key.clone()).collect();
        println!("{}", json!({"keys": keys, "types": ix.types.iter().map(|t| t.name.clone()).collect::<Vec<_>>() }));
        return;
    }
    let mut out = vec![];
    for f in req["functions"].as_array().unwrap() {
        // a function that the extractor cannot handle is lost, the others are not
        let one = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| render::render_fn(&ix, f, &req["known"])));
        out.push(one.unwrap_or_else(|_| json!({"key": f["key"], "found": false, "panicked": true})));
    }
    let mut types = vec![];
    for t in req["types"].as_array().unwrap_or(&vec![]) {
        types.push(render::render_type(&ix, t.as_str().unwrap()));
    }
    println!("{}", json!({"functions": out, "types": types}));
}
