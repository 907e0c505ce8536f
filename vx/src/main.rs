//! vx: mechanical extraction of functions from the (macro-expanded) figment
//! crate into the Rust subset accepted by Verus.  Every rewriting rule is
//! listed in /verif/DESIGN.md ("What the extraction changes and drops").
mod index;
mod lower;

use serde_json::{json, Value as J};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let job: J = serde_json::from_str(&std::fs::read_to_string(&args[1]).unwrap()).unwrap();
    let src = std::fs::read_to_string(job["source"].as_str().unwrap()).unwrap();
    let file = syn::parse_file(&src).expect("expanded source parses");
    let ix = index::Ix::build(&file);

    let mut types = serde_json::Map::new();
    for t in job["types"].as_array().unwrap() {
        let name = t.as_str().unwrap();
        types.insert(name.into(), match lower::lower_type(&ix, name, &job) {
            Ok(s) => json!({ "ok": true, "text": s }),
            Err(e) => json!({ "ok": false, "error": e }),
        });
    }

    let mut fns = serde_json::Map::new();
    for f in job["fns"].as_array().unwrap() {
        let id = f["id"].as_str().unwrap();
        let out = match lower::lower_fn(&ix, f, &job) {
            Ok(v) => v,
            Err(e) => json!({ "ok": false, "error": e }),
        };
        fns.insert(id.into(), out);
    }

    let inventory: Vec<J> = ix.fns.iter().map(|f| json!({
        "module": f.module, "self_ty": f.self_ty, "trait": f.trait_, "name": f.sig.ident.to_string(),
    })).collect();
    println!("{}", json!({ "types": types, "fns": fns, "inventory": inventory }));
}
