"""Builds the machinery from /repo's current working tree.

/verif/build/gen/sym/minirust-rs     the transpiled spec, adapted to the symbolic libspecr
/verif/build/gen/native/minirust-rs  the transpiled spec as it is, for replaying counterexamples
/verif/build/gen/native/libspecr     the stock libspecr with recorded instead of random choices
/verif/build/gen/{sym,native}/hx     the harness, compiled against either
"""
import fcntl
import hashlib, os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VX_REPO", "/repo")
BUILD = os.environ.get("VX_BUILD", os.path.join(VERIF, "build"))
ENGINE = os.path.join(VERIF, "engine")
LIBSPECR_VERSION = "0.1.40"


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin"
    e.update(RUSTUP_TOOLCHAIN="nightly-2026-04-01", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             CARGO_INCREMENTAL="0", RUST_BACKTRACE="0", RUSTC_WRAPPER="")
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    return e


def sh(cmd, cwd=None, target=None):
    e = env()
    if target:
        e["CARGO_TARGET_DIR"] = target
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("%s failed:\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        files = [p] if os.path.isfile(p) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs if "/target/" not in d + "/")
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()


def stamp_ok(path, val):
    try:
        return open(path).read() == val
    except OSError:
        return False


def write(path, text):
    if os.path.exists(path) and open(path).read() == text:
        return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def transpiler():
    return shutil.which("specr-transpile", path=env()["PATH"])


def spec_hash():
    return tree_hash([os.path.join(REPO, "spec"), os.path.join(REPO, "specr.toml"), transpiler()])


def transpile(out, libspecr):
    """Runs specr-transpile on /repo/spec."""
    attrs = open(os.path.join(REPO, "specr.toml")).read()
    m = re.search(r"attrs\s*=\s*\[.*?\n\]", attrs, re.S)
    toml = 'input = "%s"\noutput = "%s"\nname = "minirust-rs"\nlibspecr_path = "%s"\n%s\n' % (
        os.path.join(REPO, "spec"), out, libspecr, m.group(0) if m else "attrs = []")
    if os.path.isdir(out):
        shutil.rmtree(out)
    t = os.path.dirname(out) + "/specr.toml"
    os.makedirs(os.path.dirname(t), exist_ok=True)
    with open(t, "w") as f:
        f.write(toml)
    sh([transpiler(), t], cwd=os.path.dirname(out))
    ct = os.path.join(out, "Cargo.toml")
    c = open(ct).read()
    if "[workspace]" not in c:
        open(ct, "a").write("\n[workspace]\n")


HX_TOML = """[package]
name = "hx"
version = "0.1.0"
edition = "2024"

[[bin]]
name = "hx"
path = "%s/main.rs"

[dependencies]
minirust-rs = { path = "../minirust-rs" }
num-bigint = "0.4"
serde_json = "1.0"
serde = { version = "1.0", features = ["derive"] }

[features]
sym = []
default = [%s]

[workspace]

[profile.release]
opt-level = %d
debug = false
codegen-units = 16
"""


def sync_tree(src, dst, edit=None, keep=()):
    """Makes dst a copy of src, leaving unchanged files alone."""
    want = set()
    for d, _, fs in os.walk(src):
        for f in fs:
            rel = os.path.relpath(os.path.join(d, f), src)
            try:
                t = open(os.path.join(d, f)).read()
            except UnicodeDecodeError:
                continue
            want.add(rel)
            write(os.path.join(dst, rel), edit(rel, t) if edit else t)
    for d, _, fs in os.walk(dst):
        for f in fs:
            rel = os.path.relpath(os.path.join(d, f), dst)
            if rel not in want and not any(rel == k or rel.startswith(k + "/") for k in keep):
                os.remove(os.path.join(d, f))


UTIL = ["build", "pretty", "mock_write.rs", "run.rs", "cli.rs", "json.rs", "minirun.rs"]
RUNNER = ("cli.rs", "json.rs", "minirun.rs")


SNAPSHOT = os.path.join(ENGINE, "hx/util")


def hx_sources(flavour, old=()):
    """The harness together with miniutil's program builder, pretty printer and runner from /repo (those in `old`: as they were when
    the harness was written)."""
    out = os.path.join(BUILD, "gen", flavour, "hxsrc")
    sync_tree(os.path.join(ENGINE, "hx/src"), out, keep=UTIL)
    tree = os.path.join(REPO, "tooling/miniutil/src")

    def util(name):
        if name == "minirun.rs" and name not in old:
            return os.path.join(REPO, "tooling/minirun/src/main.rs")
        return os.path.join(SNAPSHOT if name in old else tree, name)

    def edit(rel, t, pretty=False):
        if os.path.basename(rel) == "global.rs":
            t = re.sub(r"Some\((\d+)\)", r"Some(vx::byte(\1))", t)
        if rel == "global.rs" and pretty:
            t = re.sub(r"\bu8\b", "Byte", t)
        return t
    sync_tree(util("build"), os.path.join(out, "build"), lambda r, t: edit(r, t) + (
        "\nmod vx_ext;\n" if r == "mod.rs" else ""), keep=["vx_ext.rs"])
    write(os.path.join(out, "build/vx_ext.rs"), open(os.path.join(ENGINE, "hx/ext/build_ext.rs")).read())
    sync_tree(util("pretty"), os.path.join(out, "pretty"), lambda r, t: edit(r, t, True))
    write(os.path.join(out, "mock_write.rs"), open(util("mock_write.rs")).read())
    for f in ("run.rs",) + RUNNER:
        t = open(util(f)).read()
        if f == "run.rs":
            t = "use crate::stdshim as std;\nuse crate::stdshim::mark_and_sweep;\n" + t
        else:
            # after the inner doc comment and attributes
            m = re.match(r"(?:\s*(?://!?[^\n]*|#!\[[^\n]*)?\n)*", t)
            i = m.end() if m else 0
            t = t[:i] + "use crate::stdshim as std;\n#[allow(unused)]\nuse crate::stdshim::{eprint, eprintln, print, println};\n" + t[i:]
        if f == "minirun.rs":
            t += "\npub fn vx_main() {\n    main()\n}\n"
        write(os.path.join(out, f), t)
    return out


def build_hx(flavour, opt):
    """Compiles the harness. If it does not fit the tree's miniutil any more (something private was renamed, say), the parts concerned
    are replaced by the committed copies; the translator is always built with the tree's."""
    last = None
    for old in ((), ("pretty",), RUNNER, RUNNER + ("mock_write.rs", "run.rs", "pretty"), tuple(UTIL)):
        write(os.path.join(BUILD, "gen", flavour, "hx", "Cargo.toml"),
              HX_TOML % (hx_sources(flavour, old), '"sym"' if flavour == "sym" else "", opt))
        try:
            sh(["cargo", "build", "--release", "--offline", "-q", "--manifest-path", os.path.join(BUILD, "gen", flavour, "hx/Cargo.toml")],
               target=os.path.join(BUILD, "target-" + flavour))
            if old:
                print("note: the %s harness is built with the committed copy of miniutil's %s:\n%s" % (
                    flavour, ", ".join(old), str(last)[:600]))
            return os.path.join(BUILD, "target-%s/release/hx" % flavour)
        except BuildError as e:
            last = last or e
    raise last


def lock(name):
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, name), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def build_sym():
    """Returns the path of the symbolic harness binary."""
    with lock(".lock-sym"):
        target = os.path.join(BUILD, "target")
        sh(["cargo", "build", "--offline", "-q", "--manifest-path", os.path.join(ENGINE, "rewrite/Cargo.toml")],
           target=target)
        rewrite = os.path.join(target, "debug", "rewrite")
        out = os.path.join(BUILD, "gen/sym/minirust-rs")
        want = spec_hash() + tree_hash([rewrite]) + REPO + VERIF
        st = os.path.join(BUILD, "gen/sym/stamp")
        if not stamp_ok(st, want) or not os.path.isdir(out):
            if os.path.exists(st):
                os.remove(st)
            transpile(out, os.path.join(ENGINE, "symspecr"))
            srcs = [os.path.join(d, f) for d, _, fs in os.walk(os.path.join(out, "src")) for f in fs if f.endswith(".rs")]
            sh([rewrite, "--cov"] + sorted(srcs))
            write(st, want)
        return build_hx("sym", 3)


def registry_libspecr():
    base = "/root/.cargo/registry/src"
    for d in sorted(os.listdir(base)):
        p = os.path.join(base, d, "libspecr-" + LIBSPECR_VERSION)
        if os.path.isdir(p):
            return p
    raise BuildError("the stock libspecr is not in the cargo registry")


SAMPLE = '''    fn sample(&self, _rng: &mut ThreadRng) -> Int {
        let start = self.start.into_inner();
        let end = self.end.into_inner();
        let divisor = self.divisor.into_inner();

        assert!(start >= BigInt::zero());
        assert!(divisor > BigInt::zero());

        let start = start.div_ceil(&divisor);
        let end = end.div_ceil(&divisor);

        assert!(start < end);

        // The recorded choice.
        let out = crate::vx::next("pick", &start, &(end - 1));
        let out = out * divisor;

        Int::wrap(out)
    }
    fn support(&self) -> Option<Vec<Int>> {
        use num_traits::ToPrimitive;
        let start = self.start.into_inner();
        let end = self.end.into_inner();
        let divisor = self.divisor.into_inner();
        if start < BigInt::zero() || divisor <= BigInt::zero() || end > BigInt::from(1024) { return None; }
        let start = start.div_ceil(&divisor).to_u64()?;
        let end = end.div_ceil(&divisor).to_u64()?;
        if start >= end { return None; }
        Some((start..end).map(|k| Int::wrap(BigInt::from(k) * &divisor)).collect())
    }
    fn as_int(x: Int) -> Int { x }
}
'''
SUPPORT0 = '''    fn support(&self) -> Option<Vec<T>> { None }
    fn as_int(_x: T) -> Int where Self: Sized { Int::ZERO }
'''
PICK = '''pub fn pick<T: Obj, D: Distribution<T>>(distr: D, f: impl Fn(T) -> bool) -> crate::Nondet<T> {
    if let Some(all) = distr.support() {
        let ok: Vec<T> = all.into_iter().filter(|x| f(*x)).collect();
        if ok.is_empty() {
            panic!("nothing to pick");
        }
        let s = distr.sample(&mut rand::thread_rng());
        crate::vx::log_pick(ok.iter().map(|x| D::as_int(*x)).collect(), D::as_int(s));
        let mut c = crate::vx::eq(0, 1);
        for x in &ok {
            c = c | crate::vx::eq(D::as_int(s), D::as_int(*x));
        }
        crate::vx::assume(c);
        return Nondet(s);
    }
'''


def gen_native_libspecr(out):
    src = registry_libspecr()
    if os.path.isdir(out):
        shutil.rmtree(out)
    os.makedirs(out)
    shutil.copytree(os.path.join(src, "src"), os.path.join(out, "src"))
    open(os.path.join(out, "Cargo.toml"), "w").write(open(os.path.join(src, "Cargo.toml")).read() + "\n[workspace]\n")
    d = os.path.join(out, "src/distribution.rs")
    s = open(d).read()
    i = s.index("    fn sample(&self, rng: &mut ThreadRng) -> Int {")
    j = s.index("#[test]")
    s = s[:i] + SAMPLE + "\n"
    t = "    fn sample(&self, rng: &mut ThreadRng) -> T;\n"
    assert t in s
    s = s.replace(t, t + SUPPORT0)
    s = s.replace("use num_bigint::RandBigInt;\n", "")
    open(d, "w").write(s)
    n = os.path.join(out, "src/nondet.rs")
    s = open(n).read()
    a = s.index("    for _ in 0..50 {")
    b = s.index('    panic!("Timeout!')
    b = s.index("\n", b) + 1
    h = "pub fn pick<T: Obj>(distr: impl Distribution<T>, f: impl Fn(T) -> bool) -> crate::Nondet<T> {\n"
    assert h in s
    s = s[:a] + "    let s = distr.sample(&mut rng);\n    crate::vx::assume(f(s));\n    Nondet(s)\n" + s[b:]
    s = s.replace(h, PICK)
    open(n, "w").write(s)
    # Maps are iterated in the order of their keys' names, as in the symbolic run.
    m = os.path.join(out, "src/map/iter.rs")
    s = open(m).read()
    s = s.replace("use im::hashmap::ConsumingIter;\n", "")
    s = s.replace("ConsumingIter<(K, V)>", "std::vec::IntoIter<(K, V)>")
    b = "self.0.call_ref_unchecked(|v| v.clone().into_iter())"
    assert b in s
    s = s.replace(b, "crate::vx::by_name(self.0.call_ref_unchecked(|v| v.clone().into_iter().collect()))")
    open(m, "w").write(s)
    l = os.path.join(out, "src/lib.rs")
    s = open(l).read()
    s = s.replace("#![warn(missing_docs)]", "#![allow(missing_docs, dead_code, unused)]")
    s = s.replace("mod int;", "pub mod vx;\n/// stock `u8`\npub type Byte = u8;\nmod int;", 1)
    open(l, "w").write(s)
    shutil.copy(os.path.join(ENGINE, "replay/vx.rs"), os.path.join(out, "src/vx.rs"))


def build_native():
    """Returns the path of the native harness binary."""
    gen_native_spec()
    with lock(".lock-native"):
        return build_hx("native", 1)


def gen_native_spec():
    """The transpiled spec on the stock libspecr (with recorded choices)."""
    with lock(".lock-gen"):
        lib = os.path.join(BUILD, "gen/native/libspecr")
        want = tree_hash([registry_libspecr(), os.path.join(ENGINE, "replay"), os.path.abspath(__file__)])
        st = os.path.join(BUILD, "gen/native/stamp-lib")
        if not stamp_ok(st, want) or not os.path.isdir(lib):
            if os.path.exists(st):
                os.remove(st)
            gen_native_libspecr(lib)
            write(st, want)
        out = os.path.join(BUILD, "gen/native/minirust-rs")
        want = spec_hash() + REPO + lib
        st = os.path.join(BUILD, "gen/native/stamp")
        if not stamp_ok(st, want) or not os.path.isdir(out):
            if os.path.exists(st):
                os.remove(st)
            transpile(out, lib)
            write(st, want)


def build_minimize():
    """Builds the translator from Rust, its sysroot and its `intrinsics` crate. Returns (binary, sysroot, intrinsics)."""
    gen_native_spec()
    with lock(".lock-mini"):
        base = os.path.join(BUILD, "gen/native")
        for c in ("minimize", "miniutil"):
            def edit(rel, t):
                if rel == "Cargo.toml" and c == "minimize":
                    # no tests are built
                    t = re.sub(r"\[dev-dependencies\]\n(?:[^\[\n][^\n]*\n)*", "", t)
                    t = re.sub(r"\[\[test\]\]\n(?:[^\[\n][^\n]*\n)*", "", t)
                    t += "\n[workspace]\n\n[profile.release]\nopt-level = 1\ndebug = false\ncodegen-units = 16\n"
                return t
            src, dst = os.path.join(REPO, "tooling", c), os.path.join(base, c)
            sync_tree(os.path.join(src, "src"), os.path.join(dst, "src"))
            write(os.path.join(dst, "Cargo.toml"), edit("Cargo.toml", open(os.path.join(src, "Cargo.toml")).read()))
        lk = os.path.join(base, "minimize/Cargo.lock")
        if not os.path.exists(lk):
            shutil.copy(os.path.join(REPO, "tooling/Cargo.lock"), lk)
        target = os.path.join(BUILD, "target-mini")
        sh(["cargo", "build", "--release", "--offline", "-q", "--manifest-path", os.path.join(base, "minimize/Cargo.toml")], target=target)
        exe = os.path.join(target, "release/minimize")
        # the standard library's metadata: the one of the test suite if it is from this translator
        sysroot = "/opt/vp/cache/minirust-sysroot"
        mains = hashlib.sha256(b"".join(open(os.path.join(REPO, "tooling/minimize/src", f), "rb").read()
                                        for f in ("main.rs", "sysroot.rs"))).hexdigest() + "  -\n"
        if not (stamp_ok(sysroot + ".stamp", mains) and os.path.isdir(sysroot + "/lib")):
            sysroot = os.path.join(BUILD, "sysroot")
            if not stamp_ok(sysroot + ".stamp", mains) or not os.path.isdir(sysroot + "/lib"):
                shutil.rmtree(sysroot, ignore_errors=True)
                e = mini_env()
                e["MINIMIZE_BUILD_SYSROOT"] = "only"
                e["MINIRUST_SYSROOT"] = sysroot
                p = subprocess.run([exe], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if p.returncode != 0:
                    raise BuildError("building the sysroot failed:\n" + p.stdout[-3000:])
                write(sysroot + ".stamp", mains)
        st = os.path.join(BUILD, "gen/native/stamp-intr")
        intr = os.path.join(BUILD, "gen/native/libintrinsics.rmeta")
        want = tree_hash([exe, os.path.join(REPO, "tooling/minimize/intrinsics/src")]) + sysroot
        if not stamp_ok(st, want) or not os.path.exists(intr):
            e = mini_env()
            e["MINIMIZE_BE_RUSTC"] = "1"
            p = subprocess.run([exe, "--sysroot=" + sysroot, "--edition", "2021", "--crate-name", "intrinsics", "--crate-type", "lib",
                                "--emit=metadata", "-o", intr, os.path.join(REPO, "tooling/minimize/intrinsics/src/lib.rs")],
                               env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                raise BuildError("building `intrinsics` failed:\n" + p.stdout[-3000:])
            write(st, want)
        return exe, sysroot, intr


def mini_env():
    e = env()
    e["LD_LIBRARY_PATH"] = os.path.join(rustc_sysroot(), "lib")
    e["MINIMIZE_BUILD_SYSROOT"] = "off"
    return e


_sysroot = []


def rustc_sysroot():
    if not _sysroot:
        _sysroot.append(sh(["rustc", "--print", "sysroot"]).strip())
    return _sysroot[0]


def translate(hx, prop, tier):
    """Translates the Rust programs of a property with the tree's own `minimize`. Returns their directory, or None if there are none."""
    out = os.path.join(BUILD, "gen/rust", prop + "-" + tier)
    os.makedirs(out, exist_ok=True)
    names = subprocess.run([hx, "rust-sources", prop, "--tier", tier, "--out", out], stdout=subprocess.PIPE, text=True, check=True).stdout.split()
    if not names:
        return None
    exe, sysroot, intr = build_minimize()
    tag = tree_hash([exe, intr]) + sysroot
    e = mini_env()

    def one(n):
        src, js, er = (os.path.join(out, n + x) for x in (".rs", ".json", ".err"))
        text = open(src).read()
        want = tag + hashlib.sha256(text.encode()).hexdigest()
        if stamp_ok(src + ".stamp", want) and (os.path.exists(js) or os.path.exists(er)):
            return
        for f in (js, er):
            if os.path.exists(f):
                os.remove(f)
        flags = re.match(r"// flags:(.*)\n", text)
        try:
            p = subprocess.run([exe, "--sysroot=" + sysroot, "--extern", "intrinsics=" + intr, "--edition", "2021", "-Awarnings", "--crate-name", "p",
                                "--minimize-dump=json"] + (flags.group(1).split() if flags else []) + [src], cwd=out, env=e,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
            ok, so, se = p.returncode == 0 and p.stdout.startswith("{"), p.stdout, p.stderr
        except subprocess.TimeoutExpired:
            ok, so, se = False, "", "no end within 120 s"
        with open(js if ok else er, "w") as f:
            f.write(so if ok else (se[-3000:] or "no output"))
        with open(src + ".stamp", "w") as f:
            f.write(want)
    import concurrent.futures
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(one, names))
    for f in os.listdir(out):
        if f.split(".")[0] not in names:
            os.remove(os.path.join(out, f))
    return out


def build_all():
    """Builds everything; returns the symbolic harness. Failures of the other two come up when they are needed."""
    import threading

    def quiet(f):
        try:
            f()
        except BuildError:
            pass
    ths = [threading.Thread(target=quiet, args=(f,)) for f in (build_native, build_minimize)]
    for t in ths:
        t.start()
    hx = build_sym()
    for t in ths:
        t.join()
    return hx


if __name__ == "__main__":
    if "--tools" in sys.argv:
        # every check builds what it needs; this only says what is missing
        for t in (transpiler(), shutil.which("z3"), shutil.which("cvc5"), registry_libspecr()):
            print(t)
        sys.exit(0)
    try:
        hx = build_all() if "--native" in sys.argv else build_sym()
        print(hx)
        if "--rust" in sys.argv:
            i = sys.argv.index("--rust")
            print(translate(hx, sys.argv[i + 1], sys.argv[i + 2]))
        if "--native" in sys.argv:
            print(build_native())
            print(build_minimize())
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
