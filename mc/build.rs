use std::path::Path;

/// Copies the modules a program may have; their crate root is the module of the program.
fn copy_modules(from: &Path, to: &Path, depth: usize) {
    std::fs::create_dir_all(to).unwrap();
    for e in std::fs::read_dir(from).into_iter().flatten().flatten() {
        let (p, name) = (e.path(), e.file_name());
        if p.is_dir() {
            copy_modules(&p, &to.join(&name), depth + 1);
        } else if let Ok(text) = std::fs::read_to_string(&p) {
            let up = if name == "mod.rs" { depth - 1 } else { depth };
            let text = text.replace("$crate::", "$\0::").replace("crate::", &"super::".repeat(up)).replace("$\0::", "$crate::");
            std::fs::write(to.join(&name), text).unwrap();
        }
    }
}

/// The programs of the repository as modules, each with an entry that can be called.
/// `programs.rs` has all of them, what they print going to `crate::said`; `<name>_alone.rs` has
/// one as it is.
fn programs() {
    let out = std::env::var("OUT_DIR").unwrap();
    let mut index = String::from(
        "macro_rules! println {\n    () => { crate::said(String::new()) };\n    ($($t:tt)*) => { crate::said(format!($($t)*)) };\n}\n",
    );
    println!("cargo:rerun-if-changed=/repo/src/bin");
    for name in ["garble", "preproc", "preproc_size"] {
        // Either one file, or a directory with modules of its own; modules next to it come along.
        let mut from = format!("/repo/src/bin/{name}.rs");
        let mut dir = "/repo/src/bin".to_string();
        if !Path::new(&from).exists() && Path::new(&format!("{dir}/{name}/main.rs")).exists() {
            dir = format!("{dir}/{name}");
            from = format!("{dir}/main.rs");
        }
        let to = format!("{out}/program_{name}");
        let _ = std::fs::remove_dir_all(&to);
        copy_modules(Path::new(&dir), Path::new(&to), 1);
        // A missing program fails the checks that use it, not the others.
        let text = std::fs::read_to_string(&from).unwrap_or_else(|e| format!("compile_error!(\"{from}: {e}\");"));
        let text = text.replace("$crate::", "$\0::").replace("crate::", "self::").replace("$\0::", "$crate::");
        std::fs::write(format!("{to}/program.rs"), format!("{text}\npub fn program_entry() {{\n    let _ = main();\n}}\n")).unwrap();
        let line = format!("#[path = \"{to}/program.rs\"]\npub mod {name};\n");
        std::fs::write(format!("{out}/{name}_alone.rs"), &line).unwrap();
        index += &line;
    }
    std::fs::write(format!("{out}/programs.rs"), index).unwrap();
}

fn main() {
    programs();
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=c/wrap.c");
    cc::Build::new().file("c/wrap.c").warnings(false).compile("mcwrap");
    println!("cargo:rustc-link-arg-bin=c12=-Wl,--wrap=galois_create_log_tables");
    println!("cargo:rustc-link-arg-bin=c12=-Wl,--wrap=malloc");
}
