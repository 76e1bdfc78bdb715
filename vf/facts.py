"""Extraction: compile /repo's current working tree (through the witness crate) under the
vf-driver rustc wrapper and load what it wrote.  Nothing of the analysed program is run."""
import hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")

CRATES = ["facet_core", "facet_reflect", "facet_json", "facet_msgpack", "facet_toml", "facet_yaml",
          "facet_urlencoded", "facet_args", "facet_pretty", "facet_derive_emit", "facet_derive_parse",
          "facet", "facet_witness"]


class ExtractionFailed(Exception):
    def __init__(self, msg, log=""):
        super().__init__(msg)
        self.log = log


def _files(root, skip=("target", ".git", "node_modules")):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in skip)
        for f in sorted(fs):
            out.append(os.path.join(d, f))
    return out


def _hash(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0")
        try:
            with open(p, "rb") as f:
                h.update(f.read())
        except OSError:
            pass
        h.update(b"\1")
    return h.hexdigest()[:24]


def sysroot():
    return subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True,
                          check=True).stdout.strip()


def build_driver():
    os.makedirs(BUILD, exist_ok=True)
    src = sorted(os.path.join(VERIF, "driver", f) for f in os.listdir(os.path.join(VERIF, "driver")))
    h = _hash(src)
    exe = os.path.join(BUILD, "vf-driver-" + h)
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        p = subprocess.run(["rustc", "+nightly", "--edition", "2024", "-O", "-Awarnings",
                            os.path.join(VERIF, "driver", "main.rs"), "-o", tmp], capture_output=True, text=True)
        if p.returncode != 0:
            raise RuntimeError("vf-driver does not build:\n" + p.stderr[-4000:])
        os.rename(tmp, exe)
        for f in os.listdir(BUILD):
            if f.startswith("vf-driver") and f != os.path.basename(exe):
                try:
                    os.remove(os.path.join(BUILD, f))
                except OSError:
                    pass
    return exe, h


def cargo_env(exe=None, out=None):
    env = dict(os.environ)
    sr = sysroot()
    env["LD_LIBRARY_PATH"] = sr + "/lib" + (":" + env["LD_LIBRARY_PATH"] if env.get("LD_LIBRARY_PATH") else "")
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WORKSPACE_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(k, None)
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    if exe:
        env["RUSTC_WRAPPER"] = exe
        env["VF_OUT"] = out
    return env


def witness_dir(work):
    """The witness crate with its dependency paths pointing at the analysed tree."""
    w = os.path.join(work, "witness")
    shutil.copytree(os.path.join(VERIF, "witness"), w, ignore=shutil.ignore_patterns("target"))
    if REPO != "/repo":
        p = os.path.join(w, "Cargo.toml")
        t = open(p).read().replace('"/repo/', '"%s/' % REPO)
        open(p, "w").write(t)
    return w


LIBS = ["facet-core", "facet-reflect", "facet-json", "facet-msgpack", "facet-toml", "facet-yaml", "facet-urlencoded",
        "facet-args", "facet-pretty", "facet"]


def extract(part="all"):
    """Returns the directory with one JSON file per crate, extracting if this tree was not yet.
    part "libs": the library crates only; "all": the corpus too."""
    exe, dh = build_driver()
    wit = _files(os.path.join(VERIF, "witness"))
    repo = [p for p in _files(REPO) if p.endswith((".rs", ".toml", ".md", ".in"))]
    key = _hash(wit + repo) + "-" + dh[:8]
    base = os.path.join(BUILD, "facts")
    for k in (key, key + "-libs") if part == "libs" else (key,):
        if os.path.exists(os.path.join(base, k, "OK")):
            return os.path.join(base, k), key
    out = os.path.join(base, key if part == "all" else key + "-libs")
    os.makedirs(base, exist_ok=True)
    work = os.path.join(BUILD, "work%d" % os.getpid())
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        w = witness_dir(work)
        tmp = os.path.join(work, "out")
        os.makedirs(tmp)
        sel = [] if part == "all" else sum((["-p", c] for c in LIBS), [])
        p = subprocess.run(["cargo", "+nightly", "check", "--offline", "--quiet", "--target-dir",
                            os.path.join(work, "target")] + sel, cwd=w, env=cargo_env(exe, tmp),
                           capture_output=True, text=True)
        if p.returncode != 0:
            raise ExtractionFailed("the analysis corpus does not type-check against the current tree", p.stderr)
        q = subprocess.run([exe, "rustc", "--crate-name", "facet_vf_models", "--crate-type", "lib", "--edition", "2021", "--emit=metadata",
                            "--out-dir", work, os.path.join(VERIF, "driver", "models.rs")], cwd=work,
                           env=dict(cargo_env(exe, tmp), RUSTUP_TOOLCHAIN="nightly"), capture_output=True, text=True)
        if q.returncode != 0:
            raise RuntimeError("models.rs does not compile:\n" + q.stderr[-2000:])
        missing = [c for c in CRATES if not os.path.exists(os.path.join(tmp, c + ".json"))
                   and not (part == "libs" and c == "facet_witness")]
        if missing:
            raise ExtractionFailed("no facts for " + ", ".join(missing), p.stderr)
        open(os.path.join(tmp, "OK"), "w").write(key)
        for d in os.listdir(base):
            full = os.path.join(base, d)
            try:
                if time.time() - os.path.getmtime(full) > 1800:
                    shutil.rmtree(full, ignore_errors=True)
            except OSError:
                pass
        if not os.path.exists(out):
            try:
                os.rename(tmp, out)
            except OSError:
                pass
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return out, key


class Crate:
    def __init__(self, d):
        self.d = d
        self.name = d["crate"]
        self.types = d["types"]
        self.allocs = d["allocs"]
        self.fns = d["fns"]
        self.by_id = {f["id"]: f for f in d["fns"]}
        for f in d["fns"]:
            f["crate"] = self

    def ts(self, k):
        if isinstance(k, int):
            return self.types[k]["s"]
        return str(k)


class Facts:
    def __init__(self, path, key):
        self.path = path
        self.key = key
        self._c = {}

    def crate(self, name):
        if name not in self._c:
            with open(os.path.join(self.path, name + ".json")) as f:
                self._c[name] = Crate(json.load(f))
        return self._c[name]


def load(part="all"):
    out, key = extract(part)
    return Facts(out, key)
