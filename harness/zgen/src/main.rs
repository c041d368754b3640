//! Runs the code generator of the tree under test: zgen IN OUT [ROOT]
//! zgen --names: reads identifiers, prints their snake_case and PascalCase forms
use std::io::BufRead;
use std::path::Path;
use stringcase::Caser;
use zserio_rs_build::{generate_model, Model};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "--names" {
        for l in std::io::stdin().lock().lines() {
            let l = l.unwrap();
            println!("{}\t{}\t{}", l, l.to_snake_case_with_nums_as_word(), l.to_pascal_case());
        }
        return;
    }
    let root = a.get(3).cloned().unwrap_or_default();
    let mut model = Model::from_filesystem(Path::new(&a[1]));
    model.evaluate();
    generate_model(&mut model, Path::new(&a[2]), &root);
}
