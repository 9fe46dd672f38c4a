"""Histories of a workspace: every sequence of requests to the real commands (through cargo) and edits, up to a depth."""
import base64, gzip, json, os, re, shutil, subprocess, threading
from concurrent.futures import ThreadPoolExecutor

LIB0 = "//! top\npub mod m;\npub fn l1(x: i32) -> i32 { m::m1(x) }\n"
LIB1 = LIB0.replace("pub mod m;", "pub mod m;\npub mod lost;")
M0 = "use flowistry_ifc_traits::Secure;\npub struct Key(pub i32);\nimpl Secure for Key {}\npub fn m1(x: i32) -> i32 {\n  let g = |y: i32| y + x;\n  g(1)\n}\n"
M1 = "use flowistry_ifc_traits::Secure;\npub struct Key(pub i32);\nimpl Secure for Key {}\n\npub fn m1(z: i32) -> i32 {\n  let h = |y: i32| { let u = z; y + u };\n  h(2)\n}\npub fn m2(x: i32) -> i32 {\n  if x > 0 { 1 } else { 2 }\n}\n"
MBAD = M0.replace("g(1)", "g(nothing)")
MAIN = "use flowistry_ifc_traits::insecure_print;\nfn main() {\n  let k = a::m::Key(a::l1(3));\n  if k.0 == 1 { insecure_print!(\"one\"); }\n}\n"
EX = "fn main() {\n  let mut v = a::l1(1);\n  let w = 1;\n  e(&mut v, &w);\n  let t = v;\n  let u = w;\n}\nfn e(x: &mut i32, y: &i32) -> i32 { *x + *y }\n"
TEST = "#[test]\nfn t() { assert_eq!(a::l1(0), 1); }\n"
B0 = "pub fn b1(x: i32) -> i32 {\n  let v = a::m::m1(x);\n  v + 1\n}\n"
B1 = "// moved\n" + B0 + "pub fn b2(x: i32) {\n  let k = a::m::Key(x);\n  if k.0 == 1 { flowistry_ifc_traits::insecure_print!(\"two\"); }\n}\n"
FILES = {
    "Cargo.toml": '[workspace]\nmembers = ["a", "b"]\nresolver = "2"\n',
    "a/Cargo.toml": '[package]\nname = "a"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\nflowistry_ifc_traits = {path = "TRAITS"}\n',
    "b/Cargo.toml": '[package]\nname = "b"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\na = {path = "../a"}\nflowistry_ifc_traits = {path = "TRAITS"}\n',
    "a/src/lib.rs": LIB0, "a/src/m.rs": M0, "a/src/main.rs": MAIN, "a/examples/ex.rs": EX, "a/tests/t.rs": TEST, "b/src/lib.rs": B0,
    "a/src/lost.rs": "fn nowhere() {}\n",
}
# what each edit does to its file; edits which change nothing are not made
EDITS = {"edit:m": ("a/src/m.rs", M1), "edit:m0": ("a/src/m.rs", M0), "break:m": ("a/src/m.rs", MBAD), "edit:b": ("b/src/lib.rs", B1), "adopt": ("a/src/lib.rs", LIB1)}
EDITED = sorted({f for f, _ in EDITS.values()})
PLAIN, RECURSE = "focus:a/examples/ex.rs:3:4", "focus+context-mode=Recurse:a/examples/ex.rs:3:4"
IGNORE = "focus+mutability-mode=IgnoreMut:a/examples/ex.rs:3:4"
REQUESTS = ["preload", "spans:a/src/lib.rs", "spans:a/src/m.rs", "focus:a/src/m.rs:5:3", "focus:a/src/m.rs:0:0", "spans:a/src/main.rs", "focus:a/src/main.rs:2:8", "spans:a/examples/ex.rs", PLAIN, RECURSE, IGNORE, "spans:a/tests/t.rs",
            "spans:b/src/lib.rs", "focus:b/src/lib.rs:2:3", "spans:a/src/lost.rs", "playground:a/src/m.rs:5:0:5:3", "rustc-version", "ifc"]
CORE = ["preload", "spans:a/src/m.rs", "focus:a/src/m.rs:5:3", "spans:a/src/main.rs", "spans:a/examples/ex.rs", "focus:b/src/lib.rs:2:3", "spans:a/src/lost.rs", "ifc"]
ANY = list(EDITS)
# one list of operations per step
BOUNDS = {"quick": [[REQUESTS + ANY, lambda path: CORE + [o for o in path if o in REQUESTS and o not in CORE]], [CORE[1:4] + CORE[5:], ["edit:m", "break:m", "edit:b", "adopt"], CORE[1:4] + CORE[5:]]],
          "thorough": [[REQUESTS + ANY, REQUESTS + ANY, REQUESTS], [CORE[1:4] + CORE[5:], ["edit:m", "break:m"], ["spans:a/src/m.rs", "ifc"], ANY, CORE[1:4] + CORE[5:]]]}

RUSTC = [None]

def functions(text):
    """The 0-based lines on which functions and closures begin; None if the text does not compile."""
    if "nothing" in text: return None
    return sorted(i for i, l in enumerate(text.split("\n")) for _ in re.findall(r"\bfn \w|\|y: i32\|", l))

class Box:
    def __init__(self, env, bins, root, traits):
        self.env = dict(env); self.root = root; self.traits = traits
        for k in ("RUSTC_WORKSPACE_WRAPPER", "CARGO_INCREMENTAL", "RUST_LOG", "CARGO_PATH"): self.env.pop(k, None)
        self.env["PATH"] = bins + ":" + self.env["PATH"]
        self.env["RUST_BACKTRACE"] = "0"
    def make(self, d):
        for f, t in FILES.items():
            p = os.path.join(d, f); os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as h: h.write(t.replace("TRAITS", self.traits))
    def run(self, d, op):
        what, *rest = op.split(":")
        what, *flags = what.split("+")
        if what == "ifc": args = ["cargo", "ifc"]
        elif what == "preload": args = ["cargo", "flowistry", "preload"]
        elif what == "rustc-version": args = ["cargo", "flowistry", what]
        else: args = ["cargo", "flowistry"] + [y for x in flags for y in ("--" + x).split("=")] + [what, os.path.join(d, rest[0])] + rest[1:]
        try: r = subprocess.run(args, cwd=d, env=self.env, capture_output=True, timeout=120)
        except subprocess.TimeoutExpired: return ("hang", None, "")
        err = r.stderr.decode("utf8", "replace")
        if what == "ifc":
            # crates report in any order, and their lines may interleave
            return ("done" if r.returncode == 0 else "failed", sorted(l.strip() for l in (r.stdout.decode("utf8", "replace") + "\n" + err).split("\n") if re.match("ERROR: |to data at|No security", l.strip())), err)
        if what == "rustc-version": return ("done" if r.returncode == 0 else "failed", r.stdout.decode("utf8", "replace").strip(), err)
        if what == "preload": return ("done" if r.returncode == 0 else "failed", None if r.returncode == 0 else "", err)
        if r.returncode != 0: return ("failed", None if not r.stdout.strip() else "printed something", err)
        try: return ("answer", json.loads(gzip.decompress(base64.b64decode(r.stdout, validate=False))), err)
        except Exception as e: return ("garbage", repr(r.stdout[:80]), err)

def expected(op, files):
    """What the texts themselves say about a request: the kind of outcome, and for spans the lines on which functions begin."""
    what, *rest = op.split(":")
    what = what.split("+")[0]
    if what == "rustc-version": return "done", RUSTC[0]
    broken = functions(files["a/src/m.rs"]) is None
    if broken: return "failed", None
    if what == "ifc": return "done", {"%s from data at %d" % (f.split("/")[-1], i + 1) for f in ("a/src/main.rs", "b/src/lib.rs") for i, l in enumerate(files[f].split("\n")) if "let k = " in l}
    if what == "preload": return "done", None
    f = rest[0]
    if f == "a/src/lost.rs" and files["a/src/lib.rs"] == LIB0: return "answer", "FileNotFound"
    # there is no function at the very beginning of a file
    return "answer", functions(files[f]) if what == "spans" else None if what != "focus" else "AnalysisError" if rest[1:] == ["0", "0"] else "Ok"

def explore(env, bins, traits, scratch, spec, workers=8):
    """spec: list of lists of operations, one per step. Returns counts and problems."""
    shutil.rmtree(scratch, ignore_errors=True); os.makedirs(scratch)
    box = Box(env, bins, scratch, traits)
    RUSTC[0] = subprocess.run(["rustc", "--version"], env=env, capture_output=True, text=True).stdout.strip().split(" ", 1)[1]
    out = {"histories": 0, "requests": 0, "nontrivial": 0, "problems": [], "samples": [], "found": 0}
    lock, fresh, fresh_locks = threading.Lock(), {}, {}
    def state(files): return tuple((f, files[f]) for f in EDITED)
    def blank(files, d):
        box.make(d)
        for f in EDITED:
            with open(os.path.join(d, f), "w") as h: h.write(files[f])
    def same(x, d): return json.loads(json.dumps(x).replace(d, "")) if x is not None else None
    def in_fresh(op, files):
        key = (op, state(files))
        with lock: l = fresh_locks.setdefault(key, threading.Lock())
        with l:
            if key not in fresh:
                d = os.path.join(scratch, "fresh.%d" % len(fresh_locks) + "." + str(abs(hash(key))))
                blank(files, d)
                k, v, _ = box.run(d, op)
                fresh[key] = (k, same(v, d)); shutil.rmtree(d)
            return fresh[key]
    def bad(path, key, text):
        with lock:
            out["found"] += 1
            if len([p for p in out["problems"] if p["key"] == key]) < 4: out["problems"].append({"key": key, "path": path, "text": text})
    def step(d, path, files, op):
        """Do op in d; returns the files afterwards, or None if it changes nothing."""
        if op in EDITS:
            f, t = EDITS[op]
            if files[f] == t: return None
            with open(os.path.join(d, f), "w") as h: h.write(t)
            return dict(files, **{f: t})
        kind, value, err = box.run(d, op)
        want, detail = expected(op, files)
        k0, v0 = in_fresh(op, files)
        tail = " | ".join(l for l in err.splitlines() if l.strip())[-300:]
        with lock: out["requests"] += 1; out["nontrivial"] += kind == "answer" or op == "ifc"
        if kind == "hang": bad(path, "hang", "no answer within 120 s")
        elif kind != want: bad(path, "outcome", "the request ended with '%s' (%s), not with '%s': %s" % (kind, str(value)[:100], want, tail))
        elif want == "failed" and value not in (None, "", []) and op != "ifc": bad(path, "outcome", "it failed, but printed something")
        elif isinstance(detail, list) and sorted(s["start"]["line"] for s in value.get("Ok", {}).get("spans", [])) != detail: bad(path, "stale", "the functions listed are %s; those of the text begin on lines %s" % (json.dumps(value)[:300], detail))
        elif op != "rustc-version" and detail == "FileNotFound" and value.get("Err", {}).get("type") != "FileNotFound": bad(path, "outcome", "a file of no crate is answered with %s" % json.dumps(value)[:200])
        elif detail in ("Ok", "AnalysisError") and detail != value.get("Err", {"type": "Ok"}).get("type"): bad(path, "outcome", "a place in a function, or outside of all, is answered with %s" % json.dumps(value)[:200])
        elif isinstance(detail, str) and op == "rustc-version" and value != detail: bad(path, "outcome", "the version is given as %s, rustc says %s" % (value, detail))
        elif isinstance(detail, set) and {l[len("ERROR: insecure flow in "):].split(":", 1)[0] for l in value if l.startswith("ERROR")} != detail: bad(path, "stale", "the insecure flows of the texts are %s, reported is %s" % (sorted(detail), value))
        elif want != "failed" and (kind, norm(same(value, d))) != (k0, norm(v0)): bad(path, "history", "the answer differs from the one in a fresh copy of the same files: %s instead of %s" % (diff(norm(same(value, d)), norm(v0))))
        return files
    def norm(v):
        if isinstance(v, dict): return {k: norm(x) for k, x in v.items()}
        if isinstance(v, list): return sorted((norm(x) for x in v), key=lambda x: json.dumps(x, sort_keys=True))
        return v
    def diff(x, y): x, y = json.dumps(x, sort_keys=True), json.dumps(y, sort_keys=True); i = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y))); return x[max(0, i - 60):i + 120], y[max(0, i - 60):i + 120]
    n = [0]
    def visit(parent, path, files):
        depth = len(path)
        for op in (spec[depth](path) if callable(spec[depth]) else spec[depth]):
            last = depth + 1 == len(spec)
            if last and op in EDITS: continue
            with lock: n[0] += 1; d = os.path.join(scratch, "n%d" % n[0])
            subprocess.run(["cp", "-a", parent, d], check=True)
            f2 = step(d, path + [op], files, op)
            if f2 is not None:
                with lock:
                    out["histories"] += 1
                    if out["histories"] % 97 == 1 and len(out["samples"]) < 6: out["samples"].append(" ; ".join(path + [op]))
                if not last: yield d, path + [op], f2
            shutil.rmtree(d, ignore_errors=True)
    def deep(parent, path, files):
        for d, p, f in visit(parent, path, files): deep(d, p, f)
    start = os.path.join(scratch, "start"); files0 = {f: t for f, t in FILES.items()}
    blank(files0, start)
    subprocess.run(["cargo", "generate-lockfile", "--offline"], cwd=start, env=box.env, capture_output=True)
    # the first two steps are done here, the rest in parallel
    def first(op):
        one = [op]
        saved = spec[0]
        d = os.path.join(scratch, "f" + str(spec[0].index(op)))
        subprocess.run(["cp", "-a", start, d], check=True)
        f2 = step(d, one, files0, op)
        if f2 is None: return None
        with lock: out["histories"] += 1
        return d, one, f2
    with ThreadPoolExecutor(workers) as pool:
        firsts = [x for x in pool.map(first, spec[0]) if x]
        def second(job):
            (parent, path, files), op = job
            with lock: n[0] += 1; d = os.path.join(scratch, "s%d" % n[0])
            subprocess.run(["cp", "-a", parent, d], check=True)
            f2 = step(d, path + [op], files, op)
            if f2 is not None:
                with lock: out["histories"] += 1
                if len(spec) > 2: deep(d, path + [op], f2)
            shutil.rmtree(d, ignore_errors=True)
        jobs = [(x, op) for x in firsts for op in (spec[1](x[1]) if callable(spec[1]) else spec[1]) if len(spec) > 2 or op not in EDITS]
        for _ in pool.map(second, jobs): pass
    # the options have to matter
    plain = {k[1]: v for k, v in fresh.items() if k[0] == PLAIN}
    for (op, st), v in list(fresh.items()):
        if op in (RECURSE, IGNORE) and v[0] == "answer" and st in plain and norm(plain[st][1]) == norm(v[1]): bad([op], "option", "the option changes nothing about a call whose effect it is about")
    shutil.rmtree(scratch, ignore_errors=True)
    return out
