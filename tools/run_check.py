#!/usr/bin/env python3
"""Builds a check against /repo's working tree and runs it (see ../check)."""
import os, resource, shutil, subprocess, sys

ROOT = os.environ["VERIF_ROOT"]
H = os.path.join(ROOT, "harness")
REG = {"C01", "C02", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C20", "C21", "C22", "C24"}
# generated programs: profile and number of random definitions (quick, thorough)
# run both as a debug and as a release build: without assertions which would stop a mistake before it does harm, and with the ones which notice it
BOTH = {"C19", "C29"}
GEN = {"C03": ("all", 110, 400), "C14": ("lengths", 10, 60), "C15": ("enums", 20, 120), "C16": ("attrs", 15, 120), "C17": ("layout", 90, 300)}


def fail_build(id, log):
    sys.stderr.write(log[-6000:] + "\n")
    sys.stderr.write(f"{id}: the check does not build against this tree\n")
    sys.exit(2)

def no_compile(id, what, text, log):
    """A program which has to compile does not, although the crate itself does: that is this property's business."""
    import hashlib
    path = os.path.join(ROOT, "replays", f"{id}-{hashlib.sha1(text.encode()).hexdigest()[:8]}.rs")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f: f.write(text)
    print(what); print(log[:4000])
    print(f"VIOLATION property={id} replay={path}", flush=True)
    sys.exit(1)
NOT_COMPILED = "// does not compile: "
def errors_in(log, package, file=None):
    """Whether it is the compiler which refuses that package, rather than something missing or out of room."""
    return f"could not compile `{package}`" in log and "signal:" not in log and "No space left" not in log and ("error[E" in log or "error: " in log) and (file is None or f"--> {file}:" in log)

def cargo(args, cwd):
    p = subprocess.run(["cargo", "build", "--offline", "-q"] + args, cwd=cwd, capture_output=True, text=True)
    return p.returncode, p.stdout + p.stderr

def write_if_new(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == text: return
    except OSError: pass
    open(path, "w").write(text)

def gen_package(id, seed, thorough, text=None):
    prof, q, t = GEN[id]
    sys.path.insert(0, os.path.join(ROOT, "tools"))
    import gen_derive
    d = os.path.join(ROOT, "target", "gen", id.lower())
    if text is None: text = gen_derive.Gen(seed, prof).run(t if thorough else q)
    pkg = "gen_" + id.lower()
    write_if_new(os.path.join(d, "Cargo.toml"), f'''[package]
name = "{pkg}"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
pbt = {{ path = "{H}/pbt" }}
model = {{ path = "{H}/model" }}
speedy = {{ path = "/repo" }}
[profile.dev]
debug = 0
opt-level = 0
incremental = false
debug-assertions = true
overflow-checks = true
panic = "unwind"
[profile.dev.package.pbt]
opt-level = 2
''')
    shutil.copyfile(os.path.join(H, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    write_if_new(os.path.join(d, "src", "main.rs"), open(os.path.join(H, "gen_main", id.lower() + ".rs")).read())
    write_if_new(os.path.join(d, "src", "gen.rs"), text)
    return d, pkg

EXT = ["chrono", "glam", "smallvec", "regex", "uuid", "indexmap_v1", "indexmap_v2"]
# name: features of speedy, what the probe then serves
CONFIGS = {
    "none": ([], []), "derive": (["speedy-derive"], ["derive"]), "alloc": (["alloc"], ["alloc"]), "alloc+derive": (["alloc", "speedy-derive"], ["alloc", "derive", "dalloc"]),
    "std": (["std"], ["alloc", "std"]), "std+derive": (["std", "speedy-derive"], ["alloc", "std", "derive", "dalloc", "dstd"]), "all": (["std", "speedy-derive"] + EXT, ["alloc", "std", "derive", "dalloc", "dstd", "ext"]),
}
QUICK = [("none", "debug"), ("none", "release"), ("derive", "debug"), ("alloc", "debug"), ("alloc+derive", "debug"), ("alloc+derive", "release"), ("std+derive", "debug"), ("all", "debug"), ("all", "release")]
def probe_package(name, cfg, thorough):
    feats, own = CONFIGS[cfg]
    d = os.path.join(ROOT, "target", "probe", name)
    q = lambda l: ", ".join(f'"{x}"' for x in l)
    deps = """chrono = "0.4"
glam = "0.29"
smallvec = "1"
regex = { version = "1", default-features = false }
uuid = { version = "1", default-features = false }
indexmap_v1 = { package = "indexmap", version = "1" }
indexmap_v2 = { package = "indexmap", version = "2" }
""" if "ext" in own else ""
    write_if_new(os.path.join(d, "Cargo.toml"), f'''[package]
name = "probe"
version = "0.1.0"
edition = "2021"
[workspace]
[[bin]]
name = "probe"
path = "{H}/probe/src/main.rs"
[features]
default = [{q(own)}]
alloc = []
std = []
derive = []
dalloc = []
dstd = []
ext = []
[dependencies]
speedy = {{ path = "/repo", default-features = false, features = [{q(feats)}] }}
{deps}[profile.dev]
debug = 0
incremental = false
debug-assertions = true
overflow-checks = true
[profile.release]
opt-level = {3 if thorough else 1}
lto = "off"
codegen-units = 64
debug-assertions = false
overflow-checks = false
''')
    shutil.copyfile(os.path.join(H, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    return d

def build_probes(id, thorough):
    """Builds the probe in every configuration; the addresses go to the check by environment."""
    from concurrent.futures import ThreadPoolExecutor
    jobs = [(c, p) for c in CONFIGS for p in ["release", "debug"]] if thorough else QUICK
    jobs = sorted(jobs, key=lambda j: (j[1] != "release", -len(j[0])) if j[0] != "all" else (j[1] != "release", -99))
    def native(j):
        cfg, prof = j
        d = probe_package(f"{cfg}-{prof}", cfg, thorough)
        e = dict(os.environ, CARGO_TARGET_DIR=os.path.join(d, "target"))
        p = subprocess.run(["cargo", "build", "--offline", "-q"] + (["--release"] if prof == "release" else []), cwd=d, env=e, capture_output=True, text=True)
        return p.returncode, f"{cfg} {prof}", os.path.join(d, "target", prof, "probe"), p.stdout + p.stderr
    def far(triple):
        cfg = "all"
        d = probe_package(f"{cfg}-{triple}", cfg, thorough)
        # (no borrow tracking: the aliasing rules are not settled; everything else the interpreter knows is checked)
        e = dict(os.environ, CARGO_TARGET_DIR=os.path.join(d, "target"), MIRIFLAGS="-Zmiri-disable-stacked-borrows -Zmiri-disable-isolation")
        home = os.path.join(ROOT, "target", "miri-home", triple)
        os.makedirs(home, exist_ok=True)
        e["XDG_CACHE_HOME"] = home
        cmd = ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--target", triple]
        p = subprocess.run(cmd, cwd=d, env=e, stdin=subprocess.DEVNULL, capture_output=True, text=True)
        vars = " ".join(f"{k}='{e[k]}'" for k in ["CARGO_TARGET_DIR", "XDG_CACHE_HOME", "MIRIFLAGS"])
        return p.returncode, triple, f"env {vars.replace('=', chr(1))} sh -c 'cd {d} && exec {' '.join(cmd)}'", p.stdout + p.stderr
    triples = ["s390x-unknown-linux-gnu", "i686-unknown-linux-gnu"] + (["x86_64-unknown-linux-gnu"] if thorough else [])
    with ThreadPoolExecutor(8) as ex:
        f = [ex.submit(far, t) for t in triples]
        n = [ex.submit(native, j) for j in jobs]
        f = [x.result() for x in f]; n = [x.result() for x in n]
    for rc, name, _, log in n + f:
        if rc != 0 and (errors_in(log, "speedy") or errors_in(log, "probe")):
            no_compile(id, f"does not compile as {name}, though it does in other configurations", NOT_COMPILED + name + "\n" + "".join("// " + l + "\n" for l in log.splitlines()), log)
        if rc != 0: fail_build(id, f"the probe does not build or start as {name}:\n{log}")
    os.environ["PBT_HANG"] = "180" # (an interpreted machine takes its time to start)
    os.environ["PROBES"] = ";".join(f"{name}={cmd}" for _, name, cmd, _ in n)
    outs = []
    for _, name, cmd, _ in f:
        p = os.path.join(ROOT, "target", "probe", f"run-{name}.sh")
        write_if_new(p, "#!/bin/sh\nexec " + cmd.replace(chr(1), "=") + "\n")
        outs.append(f"{name}=sh {p}")
    os.environ["PROBES_FAR"] = ";".join(outs)

def main():
    id, bin = sys.argv[1], sys.argv[2]
    rest = sys.argv[3:]
    thorough = os.environ.get("VERIF_TIER", "quick") == "thorough"
    target = os.environ["CARGO_TARGET_DIR"]
    if id in ("C26", "C28"):
        sys.path.insert(0, os.path.join(ROOT, "tools"))
        import compile_checks
        try: sys.exit(compile_checks.run(id, ROOT, rest))
        except compile_checks.BuildError as e: fail_build(id, str(e))
    if id in GEN:
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        text = None
        if len(rest) == 2 and rest[0] == "--replay":
            t = open(rest[1], errors="replace").read()
            if t.startswith(NOT_COMPILED): text = t
        d, bin = gen_package(id, seed, thorough, text)
        rc, log = cargo([], d)
        if rc != 0 and errors_in(log, bin, "src/gen.rs"):
            t = open(os.path.join(d, "src", "gen.rs")).read()
            no_compile(id, "what the derive macros generate for a well-formed definition does not compile", t if t.startswith(NOT_COMPILED) else NOT_COMPILED + "(generated definitions)\n" + t, log)
        if rc == 0 and text: print("replay passes: the property holds for this input"); sys.exit(0)
    else:
        pkg = "chk_reg" if id in REG else "chk_std"
        rc, log = cargo(["-p", pkg, "--bin", bin], H)
        if rc == 0 and id in BOTH: rc, log = cargo(["--release", "-p", pkg, "--bin", bin], H)
    if rc != 0: fail_build(id, log)
    if id == "C23":
        build_probes(id, thorough)
        if len(rest) == 2 and open(rest[1], errors="replace").read().startswith(NOT_COMPILED): print("replay passes: it compiles in every configuration"); sys.exit(0)
    exe = os.path.join(target, "debug", bin)
    try: resource.setrlimit(resource.RLIMIT_STACK, (1 << 28, resource.getrlimit(resource.RLIMIT_STACK)[1])) # (types which contain themselves)
    except (ValueError, OSError): pass
    if id in BOTH:
        os.environ["PBT_OTHER"] = os.path.join(target, "release", bin)
        if rest: # (a recorded case)
            rc = subprocess.run([exe] + rest).returncode
            if rc != 0: sys.exit(1 if rc == 1 else rc)
            exe = os.environ["PBT_OTHER"]
    os.execv(exe, [exe] + rest)

main()
