pub mod cost;
pub mod parse;
pub mod paths;
pub mod pretty;
pub mod read;
pub mod serde;
pub mod threads;

use crate::engine::Check;

pub fn all() -> Vec<Check> {
    let mut v = Vec::new();
    v.extend(parse::checks());
    v.extend(paths::checks());
    v.extend(pretty::checks());
    v.extend(serde::checks());
    v.extend(read::checks());
    v.extend(cost::checks());
    v.extend(threads::checks());
    v
}

pub fn probe(file: &str) -> i32 {
    let text = std::fs::read_to_string(file).expect("file");
    match yaml_subset::yaml::parse_yaml_file(&text) {
        Ok(d) => {
            println!("{:#?}", d);
            let f = d.format();
            println!("format: {:?}", f);
            if let Ok(f) = f {
                println!("{}\n<eof>", f);
                match yaml_subset::yaml::parse_yaml_file(&f) {
                    Ok(d2) => println!("reparse equal: {}", d == d2),
                    Err(e) => println!("reparse error:\n{}", e),
                }
            }
            use yaml_subset::yaml::Pretty;
            let p = d.clone().pretty();
            println!("pretty:\n{}\n<eof>", p.format().unwrap_or_default());
        }
        Err(e) => println!("error at {:?}:\n{}", e.location(), e),
    }
    0
}
