"""Builds everything a check needs from /repo's current working tree."""
import glob, json, os, re, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.path.join(VERIF, "target")
TRIPLE = "x86_64-unknown-linux-gnu"
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
LLVM = f"/root/.rustup/toolchains/{TOOLCHAIN}/lib/rustlib/{TRIPLE}/bin"


class BuildError(Exception):
    pass


def env(**extra):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("CARGO_", "RUSTC", "RUSTFLAGS", "RUSTUP_TOOLCHAIN")) and k not in ("CARGO_HOME",):
            del e[k]
    e.update(HOME="/root", PATH="/usr/local/bin:/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin"),
             RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
    e.update(extra)
    return e


def run(cmd, cwd, e, what):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        msgs = ""
        for line in p.stdout.splitlines():
            if line.startswith('{"reason":"compiler-message"'):
                m = json.loads(line)["message"]
                if m.get("level") == "error":
                    msgs += m.get("rendered", "")
        raise BuildError(f"{what} failed ({p.returncode}):\n{p.stderr[-2000:]}\n{msgs[-4000:]}")
    return p.stdout


def forget(target, *names):
    # cargo sees changes by mtime only: never reuse an old build of what is under test
    for n in names:
        for d in glob.glob(f"{target}/**/.fingerprint/{n}-*", recursive=True):
            subprocess.run(["rm", "-rf", os.path.abspath(d)])


def engine():
    out = os.path.join(TARGET, "engine")
    run(["cargo", "build", "--release", "--offline"], f"{VERIF}/engine", env(CARGO_TARGET_DIR=out), "engine build")
    return f"{out}/release/symex"


def entries():
    return re.findall(r"^\s*(h_\w+)\s*=>", open(f"{VERIF}/harness/src/lib.rs").read(), re.M)


def module():
    """LLVM IR of the harnesses linked with the crate, its dependencies and std."""
    out = os.path.join(TARGET, "sym")
    forget(out, "cloud-storage-signature", "symharness", "ring", "sha256", "reqwest")
    flags = "--emit=llvm-bc -C no-vectorize-loops -C no-vectorize-slp -Zub-checks=no -C relocation-model=static"
    js = run(["cargo", "build", "--release", "--offline", "-Zbuild-std=std,panic_abort", "--target", TRIPLE, "--message-format=json"],
             f"{VERIF}/harness", env(CARGO_TARGET_DIR=out, RUSTC_BOOTSTRAP="1", RUSTFLAGS=flags), "symbolic build")
    bcs = []
    for line in js.splitlines():
        if not line.startswith("{"):
            continue
        m = json.loads(line)
        if m.get("reason") != "compiler-artifact":
            continue
        for f in m["filenames"]:
            if f.endswith(".rlib") and f"/{TRIPLE}/" in f:
                b = os.path.basename(f)[3:-5]
                bc = f"{out}/{TRIPLE}/release/deps/{b}.bc"
                if not re.match(r"(proc_macro|addr2line|panic_unwind)-", b):
                    if not os.path.exists(bc):
                        # final artifact names carry no hash
                        c = sorted(glob.glob(f"{out}/{TRIPLE}/release/deps/{b}-*.bc"), key=os.path.getmtime)
                        if not c:
                            raise BuildError(f"no bitcode for {b}")
                        bc = c[-1]
                    bcs.append(bc)
    bcs = list(dict.fromkeys(bcs))
    if len(bcs) < 30:
        raise BuildError(f"only {len(bcs)} bitcode files")
    ll = f"{out}/module.ll"
    e = env()
    run([f"{LLVM}/llvm-link", *bcs, "-o", f"{out}/all.bc"], out, e, "llvm-link")
    keep = ",".join(entries() + ["clock_gettime", "getenv", "open64", "read", "close", "fstat64", "statx", "lseek64", "write", "writev", "__xpg_strerror_r"])
    run([f"{LLVM}/opt", "-passes=internalize,globaldce,lower-atomic", f"-internalize-public-api-list={keep}", f"{out}/all.bc", "-o", f"{out}/int.bc"], out, e, "opt")
    run([f"{LLVM}/llvm-dis", f"{out}/int.bc", "-o", ll], out, e, "llvm-dis")
    return ll


def native():
    """The same harnesses on the real crate and its real dependencies."""
    out = os.path.join(TARGET, "native")
    forget(out, "cloud-storage-signature", "native-replay", "reqwest")
    run(["cargo", "build", "--offline"], f"{VERIF}/replay", env(CARGO_TARGET_DIR=out, RUSTFLAGS="--cfg native"), "native build")
    return f"{out}/debug/native-replay"


def all_parallel(want_native=True):
    """engine + module in parallel; the native build goes on in the background."""
    res, err, times = {}, {}, {}

    def go(name, f):
        t = time.time()
        try:
            res[name] = f()
        except Exception as x:  # noqa
            err[name] = x
        times[name] = round(time.time() - t, 1)

    th = {n: threading.Thread(target=go, args=(n, f)) for n, f in (("engine", engine), ("module", module), ("native", native))}
    for n in ("engine", "module"):
        th[n].start()
    th["engine"].join()
    th["module"].join()
    if want_native:
        th["native"].start()
    for n in ("engine", "module"):
        if n in err:
            if want_native:
                th["native"].join()
            raise err[n]

    def native_result():
        th["native"].join()
        if "native" in err:
            raise err["native"]
        return res["native"]

    return res["engine"], res["module"], native_result, times


if __name__ == "__main__":
    t = time.time()
    try:
        e, m, n, times = all_parallel()
        print(e, m, n(), times, f"{time.time() - t:.1f}s")
    except BuildError as x:
        print(x)
        sys.exit(2)
