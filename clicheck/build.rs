//! The command-line program has no library: its modules are compiled into this crate as they are.
//! Which ones there are is read off the program's main.rs.
use std::path::Path;
fn copy(from: &Path, to: &Path) {
    std::fs::create_dir_all(to).unwrap();
    for e in std::fs::read_dir(from).unwrap() {
        let e = e.unwrap().path();
        let name = e.file_name().unwrap();
        if e.is_dir() { copy(&e, &to.join(name)); continue }
        // x.rs beside a directory x becomes x/mod.rs, which finds its own modules wherever it is included from
        let inner = e.with_extension("");
        let dest = if e.extension().is_some_and(|x| x == "rs") && inner.is_dir() { let d = to.join(inner.file_name().unwrap()); std::fs::create_dir_all(&d).unwrap(); d.join("mod.rs") } else { to.join(name) };
        std::fs::copy(&e, dest).unwrap();
    }
}
fn main() {
    let dir = Path::new(env!("CARGO_MANIFEST_DIR")).join("../../repo/src/invader/src").canonicalize().expect("invader sources");
    let main = std::fs::read_to_string(dir.join("main.rs")).expect("main.rs");
    println!("cargo:rerun-if-changed={}", dir.display());
    let copied = Path::new(&std::env::var("OUT_DIR").unwrap()).join("invader");
    let _ = std::fs::remove_dir_all(&copied);
    copy(&dir, &copied);
    let mut out = String::new();
    for l in main.lines() {
        let l = l.trim();
        let Some(name) = l.strip_prefix("mod ").or_else(|| l.strip_prefix("pub mod ")).and_then(|r| r.strip_suffix(';')) else { continue };
        let name = name.trim();
        let file = [copied.join(name).join("mod.rs"), copied.join(format!("{name}.rs"))].into_iter().find(|p| p.exists()).expect("module file");
        out += &format!("#[path = {:?}]\n#[allow(dead_code, unused)]\npub mod {name};\n", file.display().to_string());
    }
    std::fs::write(copied.with_extension("rs"), out).unwrap();
}
