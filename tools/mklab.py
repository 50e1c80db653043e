"""Copy the macro crate's sources into build/lab as an ordinary library.

Mechanical, on every run: every file under sscanf_macro/src is copied; lines that consist of a
#[proc_macro..] attribute are removed; nothing else is changed. `syn` and `proc_macro` resolve to
the stand-ins in rs/fake_syn and rs/fake_pm.
"""
import os, re, shutil, sys, tomllib
def mklab(repo, dst, fakes):
    src = os.path.join(repo, "sscanf_macro", "src")
    shutil.rmtree(os.path.join(dst, "src"), ignore_errors=True)
    n = 0
    for root, _, files in os.walk(src):
        rel = os.path.relpath(root, src)
        os.makedirs(os.path.join(dst, "src", rel), exist_ok=True)
        for f in files:
            t = open(os.path.join(root, f), encoding="utf-8").read()
            t2 = re.sub(r'^[ \t]*#\[proc_macro(_derive|_attribute)?(\([^\]]*\))?\][ \t]*\n', lambda m: "\n", t, flags=re.M)
            n += t != t2
            open(os.path.join(dst, "src", rel, f), "w", encoding="utf-8").write(t2)
    c = tomllib.load(open(os.path.join(repo, "sscanf_macro", "Cargo.toml"), "rb"))
    deps = []
    for k, v in c.get("dependencies", {}).items():
        if k == "syn":
            continue
        if isinstance(v, str):
            deps.append(f'{k} = "{v}"')
        else:
            parts = ", ".join(f'{a} = {b!r}'.replace("'", '"').replace("True", "true").replace("False", "false") for a, b in v.items())
            deps.append(f'{k} = {{ {parts} }}')
    open(os.path.join(dst, "Cargo.toml"), "w").write(f'''[package]
name = "lab"
version = "0.0.0"
edition = "{c["package"].get("edition", "2018")}"
[lints.rust]
warnings = "allow"
[dependencies]
syn = {{ package = "fake_syn", path = "{fakes}/fake_syn" }}
proc_macro = {{ package = "fake_pm", path = "{fakes}/fake_pm" }}
{chr(10).join(deps)}
[workspace]
''')
if __name__ == "__main__":
    mklab(sys.argv[1], sys.argv[2], sys.argv[3])
