//! Makes one module per gc-* command: the command's source as it stands in /repo, plus one
//! appended line that lets the simulator call its (private) main.
use std::fs;
use std::path::Path;

fn main() {
    let repo = "/repo/command/src/bin";
    let out = std::env::var("OUT_DIR").unwrap();
    println!("cargo:rerun-if-changed={}", repo);
    println!("cargo:rerun-if-changed=build.rs");
    let bins = [
        "gc-add", "gc-build", "gc-clean", "gc-csp", "gc-cycle", "gc-delete", "gc-desc", "gc-init",
        "gc-random", "gc-short-path", "gc-topo-sort",
    ];
    let mut mods = String::new();
    let mut table = String::from("pub fn run_bin(name: &str) -> i32 {\n    match name {\n");
    for b in bins.iter() {
        let file = Path::new(repo).join(format!("{}.rs", b));
        let file = if file.exists() { file } else { Path::new(repo).join(b).join("main.rs") };
        println!("cargo:rerun-if-changed={}", file.display());
        let src = fs::read_to_string(&file).expect("command source");
        let m = b.replace('-', "_");
        let src = as_module(&src, &m, file.parent().unwrap());
        let dst = Path::new(&out).join(format!("{}.rs", m));
        let new = format!(
            "{}\npub fn __sim_entry() -> i32 {{ crate::bins::finish(main()) }}\n",
            src
        );
        if fs::read_to_string(&dst).ok().as_deref() != Some(&new) {
            fs::write(&dst, new).unwrap();
        }
        mods.push_str(&format!("#[path = {:?}]\npub mod {};\n", dst.display().to_string(), m));
        table.push_str(&format!("        {:?} => {}::__sim_entry(),\n", b, m));
    }
    table.push_str("        _ => panic!(\"no such command: {}\", name),\n    }\n}\n");
    fs::write(Path::new(&out).join("bins.rs"), mods + &table).unwrap();
}

/// What a crate root may say and a module may not: `crate::` paths and files of its own modules.
fn as_module(src: &str, name: &str, dir: &Path) -> String {
    let mut out = String::new();
    for line in src.split_inclusive('\n') {
        let t = line.trim();
        let decl = t.strip_prefix("pub ").unwrap_or(t);
        if let Some(m) = decl.strip_prefix("mod ").and_then(|r| r.strip_suffix(';')) {
            let m = m.trim();
            for f in [format!("{}.rs", m), format!("{}/mod.rs", m)].iter() {
                if dir.join(f).exists() {
                    println!("cargo:rerun-if-changed={}", dir.join(f).display());
                    out.push_str(&format!("#[path = {:?}]\n", dir.join(f).display().to_string()));
                    break;
                }
            }
        }
        let mut rest = line;
        while let Some(i) = rest.find("crate::") {
            let before = rest[..i].chars().last();
            out.push_str(&rest[..i]);
            out.push_str("crate::");
            if !before.map_or(false, |c| c.is_alphanumeric() || c == '_' || c == '$' || c == ':') {
                out.push_str(&format!("bins::{}::", name));
            }
            rest = &rest[i + 7..];
        }
        out.push_str(rest);
    }
    out
}
