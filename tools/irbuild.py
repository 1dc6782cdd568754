"""Build the LLVM IR of the harness + /repo, the symbolic executor and the native replay binaries."""
import hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HPP_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
HARNESS = os.path.join(VERIF, "harness")
ENGINE = os.path.join(VERIF, "engine")


def env(**kw):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_PROFILE") or k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
            del e[k]
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_NET_OFFLINE"] = "true"
    e.update(kw)
    return e


def run(cmd, cwd=None, e=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=e or env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode != 0:
        sys.stderr.write(p.stdout[-6000:] + "\n")
        raise SystemExit("INTERNAL: build step failed: " + " ".join(cmd[:6]))
    return p.stdout


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isfile(p):
            fs = [p]
        else:
            fs = []
            for d, ds, ns in os.walk(p):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git", ".build", "__pycache__"))
                fs += [os.path.join(d, n) for n in sorted(ns)]
        for f in fs:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\1")
    return h.hexdigest()[:16]


# the parts of the harness to build; None: all
PARTS = None


def parts_of(entries):
    """The parts of the harness that the entries are in."""
    r = set()
    for f in os.listdir(os.path.join(HARNESS, "src")):
        if f.endswith(".rs"):
            names = set(re.findall(r'pub extern "C-unwind" fn (h_\w+)', open(os.path.join(HARNESS, "src", f)).read()))
            if names & set(entries) and 'feature = "%s"' % f[:-3] in open(os.path.join(HARNESS, "src", "lib.rs")).read():
                r.add(f[:-3])
    return sorted(r)


def settle_parts(entries):
    """All parts if they build, else (the crate's interface has changed) those that the entries need."""
    global PARTS
    PARTS = None
    mark = os.path.join(BUILD, "parts-" + src_hash())
    if not os.path.exists(mark):
        p = subprocess.run(["cargo", "check", "--offline", "--lib"], cwd=HARNESS, env=env(CARGO_TARGET_DIR=mark + ".target"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        shutil.rmtree(mark + ".target", ignore_errors=True)
        for f in os.listdir(BUILD):
            if f.startswith("parts-"):
                os.unlink(os.path.join(BUILD, f))
        with open(mark, "w") as f:
            f.write("all" if p.returncode == 0 else "some")
    if open(mark).read() == "some":
        PARTS = parts_of(entries)


def features():
    return [] if PARTS is None else ["--no-default-features", "--features", ",".join(PARTS)]


def src_hash():
    return ("" if PARTS is None else "-".join(PARTS) + "-") + tree_hash([os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml"), os.path.join(HARNESS, "src"), os.path.join(REPO, "examples"),
                      os.path.join(HARNESS, "Cargo.toml"), os.path.abspath(__file__)])


def llvm_bin():
    root = run(["rustc", "--print", "sysroot"]).strip()
    return os.path.join(root, "lib/rustlib/x86_64-unknown-linux-gnu/bin")


def build_engine():
    h = tree_hash([os.path.join(ENGINE, "src"), os.path.join(ENGINE, "Cargo.toml")])
    out = os.path.join(BUILD, "symx-" + h)
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        t = os.path.join(BUILD, "engine")
        run(["cargo", "build", "--release", "--offline"], cwd=ENGINE, e=env(CARGO_TARGET_DIR=t))
        for f in os.listdir(BUILD):
            if f.startswith("symx-"):
                os.unlink(os.path.join(BUILD, f))
        shutil.copy(os.path.join(t, "release", "symx"), out + ".tmp")
        os.rename(out + ".tmp", out)
    return out


HOOKED = ["9panicking9panic_fmt", "8hash_one", "hashmap_random_keys", "2io5stdio6__print", "2io5stdio7__eprint"]


def hook(text):
    """Turn the definitions of the modelled functions into declarations."""
    out = []
    skip = False
    hooked = []
    for line in text.split("\n"):
        if skip:
            if line == "}":
                skip = False
            continue
        if line.startswith("define "):
            m = re.search(r'@("?)([^"(\s]+)\1\(', line)
            name = m.group(2) if m else ""
            if any(h in name for h in HOOKED) and "{{closure" not in name and not name.startswith("h_"):
                # a closure mangled inside such a function starts with NC / has the name in a nested path; keep exact ones
                if exact(name):
                    d = line[len("define "):]
                    d = re.sub(r"^((?:(?:internal|private|hidden|dso_local|weak|linkonce_odr|protected|weak_odr|available_externally) )*)", "", d)
                    # cut attributes after the parameter list
                    i = d.index("(", d.index("@"))
                    depth = 0
                    for j in range(i, len(d)):
                        if d[j] == "(":
                            depth += 1
                        elif d[j] == ")":
                            depth -= 1
                            if depth == 0:
                                break
                    out.append("declare " + d[:j + 1])
                    hooked.append(name)
                    skip = True
                    continue
        out.append(line)
    return "\n".join(out), hooked


def exact(name):
    if "NC" in name and re.search(r"_RNC", name):
        return False
    return True


def build_bc():
    """The merged, not yet optimised bitcode of harness, crate and std. Returns (path, hash)."""
    h = src_hash()
    d = os.path.join(BUILD, "ir-" + h)
    out = os.path.join(d, "merged.bc")
    if os.path.exists(out):
        return out, h
    if os.path.isdir(BUILD):
        for f in os.listdir(BUILD):
            if f.startswith("ir-") and f != "ir-" + h or f.startswith("replay-") and f != "replay-" + h:
                shutil.rmtree(os.path.join(BUILD, f), ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    t = os.path.join(d, "target")
    e = env(CARGO_TARGET_DIR=t, RUSTC_BOOTSTRAP="1", CARGO_PROFILE_RELEASE_PANIC="abort",
            RUSTFLAGS="-C no-prepopulate-passes -Zinline-mir=no")
    run(["cargo", "rustc", "--release", "--offline", "--bin", "ir"] + features() + ["--", "-C", "save-temps",
         "-C", "link-args=-Wl,--unresolved-symbols=ignore-all"], cwd=HARNESS, e=e)
    deps = os.path.join(t, "release", "deps")
    bc = [os.path.join(deps, f) for f in os.listdir(deps) if f.endswith(".lto.after-restriction.bc")]
    if len(bc) != 1:
        raise SystemExit("INTERNAL: expected one merged bitcode file, found %d" % len(bc))
    shutil.move(bc[0], out + ".tmp")
    shutil.rmtree(t)
    os.rename(out + ".tmp", out)
    return out, h


def build_ir(entries):
    """The IR of the given harness entries. Returns {"ll":, "hash":, "encoded": [crate functions], "hooked": [...]}"""
    bc, h = build_bc()
    d = os.path.dirname(bc)
    key = hashlib.sha256(",".join(sorted(entries)).encode()).hexdigest()[:8]
    ll = os.path.join(d, key + ".ll")
    meta = os.path.join(d, key + ".json")
    if os.path.exists(ll) and os.path.exists(meta):
        return json.load(open(meta))
    b = llvm_bin()
    p = os.path.join(d, key)
    run([os.path.join(b, "opt"), "-strip-debug", "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join(entries + ["sx_sink"] * ("h_c27" in entries)), bc, "-o", p + "a.bc"])
    text = run([os.path.join(b, "llvm-dis"), p + "a.bc", "-o", "-"])
    text, hooked = hook(text)
    if "h_c27" in entries:
        # what is printed is kept
        for n in hooked:
            if "2io5stdio6__print" in n:
                text = re.sub(r'declare [^\n]*@"?%s"?\([^\n]*\n' % re.escape(n), "", text)
                text = re.sub(r'@"?%s"?\b' % re.escape(n), "@sx_sink", text)
    with open(p + "b.ll", "w") as f:
        f.write(text)
    # what is left after removing what the hooked functions alone used
    run([os.path.join(b, "opt"), "-passes=globaldce", p + "b.ll", "-o", p + "c.bc"])
    text = run([os.path.join(b, "llvm-dis"), p + "c.bc", "-o", "-"])
    encoded = sorted(set(re.findall(r'^define [^@]*@"?(_R[^"(\s]*23henriks_parsing_project[^"(\s]*)"?\(', text, re.M)))
    run([os.path.join(b, "opt"), "-passes=default<O2>,globaldce", "-vectorize-loops=false", "-vectorize-slp=false", p + "c.bc", "-o", p + "d.bc"])
    run([os.path.join(b, "llvm-dis"), p + "d.bc", "-o", ll + ".tmp"])
    for x in ("a.bc", "b.ll", "c.bc", "d.bc"):
        os.unlink(p + x)
    os.rename(ll + ".tmp", ll)
    m = {"ll": ll, "hash": h, "encoded": encoded, "hooked": hooked}
    with open(meta + ".tmp", "w") as f:
        json.dump(m, f)
    os.rename(meta + ".tmp", meta)
    return m


def build_replay():
    """Native replay binaries: with overflow checks (like a debug build) and without (like a release build)."""
    h = src_hash()
    d = os.path.join(BUILD, "replay-" + h)
    outs = {"checked": os.path.join(d, "checked"), "wrapping": os.path.join(d, "wrapping")}
    if all(os.path.exists(p) for p in outs.values()):
        return outs
    os.makedirs(d, exist_ok=True)
    t = os.path.join(d, "target")
    for prof, out in (("dev", "checked"), ("wrap", "wrapping")):
        run(["cargo", "build", "--profile", prof, "--offline", "--bin", "replay"] + features(), cwd=HARNESS, e=env(CARGO_TARGET_DIR=t))
        shutil.copy(os.path.join(t, "debug" if prof == "dev" else prof, "replay"), outs[out] + ".tmp")
        os.rename(outs[out] + ".tmp", outs[out])
    shutil.rmtree(t)
    return outs


if __name__ == "__main__":
    t0 = time.time()
    print(build_engine(), time.time() - t0)
    t0 = time.time()
    print(build_bc(), time.time() - t0)
    t0 = time.time()
    m = build_ir(sys.argv[1:] or ["h_smoke"])
    print(m["ll"], os.path.getsize(m["ll"]), len(m["encoded"]), m["hooked"], time.time() - t0)
    t0 = time.time()
    print(build_replay(), time.time() - t0)
