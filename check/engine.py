"""Extraction + Verus: run both, and attribute what the verifier says to functions of the crate."""
import json, os, re, subprocess, sys, time, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VX = os.path.join(VERIF, "vx")
BUILD = os.path.join(VERIF, "build")


class Failure(Exception):
    pass


def env():
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def build_vx():
    """The extractor, built from its committed source when it is not there yet."""
    target = os.path.join(BUILD, "vx-target")
    exe = os.path.join(target, "debug", "vx")
    srcs = [os.path.join(VX, "src", f) for f in os.listdir(os.path.join(VX, "src"))] + [os.path.join(VX, "Cargo.toml")]
    if os.path.exists(exe) and os.path.getmtime(exe) > max(os.path.getmtime(f) for f in srcs):
        return exe
    e = env()
    e["CARGO_TARGET_DIR"] = target
    r = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=VX, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not os.path.exists(exe):
        raise Failure("building the extractor failed:\n" + r.stdout)
    os.utime(exe)
    return exe


def extract(src, out, mp, contracts=None, opts=()):
    exe = build_vx()
    r = subprocess.run(
        [exe, "--src", src, "--contracts", contracts or os.path.join(VERIF, "contracts"), "--out", out, "--map", mp, *opts],
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise Failure("extraction failed: " + r.stdout)
    return json.load(open(mp))


MARK = re.compile(r"/\*@([FEIJUV]) (.*?) ?@\*/")
FN = re.compile(r"^\s*(?:#\[[^\]]*\]\s*)*(?:pub(?:\([^)]*\))?\s+)?(?:broadcast\s+)?(?:open\s+|closed\s+|uninterp\s+)?(?:proof|spec|exec)?\s*fn\s+(\w+)")


class Lines:
    """Which function, injection or lemma a line of the extracted file belongs to."""

    def __init__(self, path):
        self.lines = open(path).read().split("\n")
        self.owner = []
        fn, inj, use, other = [], [], [], None
        for l in self.lines:
            own = None
            for k, key in MARK.findall(l):
                if k == "F": fn.append(key)
                elif k == "I": inj.append(key)
                elif k == "U": use.append(key)
                own = own or self.top(fn, inj, use)
                if k == "E" and fn: fn.pop()
                elif k == "J" and inj: inj.pop()
                elif k == "V" and use: use.pop()
            m = FN.match(l)
            if m:
                other = m.group(1)
            cur = own or self.top(fn, inj, use)
            if cur is None:
                cur = ("lemma", other or "prelude")
            elif cur[0] == "inject" and m:
                pass
            self.owner.append(cur + ((other if cur[0] == "inject" else None),))

    @staticmethod
    def top(fn, inj, use):
        if fn: return ("fn", fn[-1])
        if inj: return ("inject", inj[-1])
        if use: return ("use", use[-1])
        return None

    def at(self, n):
        return self.owner[n - 1] if 0 < n <= len(self.owner) else ("lemma", "?", None)


def kind_of(msg):
    m = msg.lower()
    if "rlimit" in m or "resource limit" in m or "timed out" in m: return "rlimit"
    if "postcondition" in m: return "post"
    if "invariant" in m: return "invariant"
    if "precondition" in m: return "pre"
    if "overflow" in m or "underflow" in m: return "arith"
    if "division by zero" in m: return "arith"
    if "decreases" in m or "termination" in m: return "decreases"
    if "assertion failed" in m: return "assert"
    if "index" in m and "bounds" in m: return "pre"
    if "unreachable" in m or "panic" in m: return "pre"
    return "compile"


def diagnostics(stderr, out):
    """Errors of one Verus run: compile errors and failed obligations."""
    L = Lines(out)
    base = os.path.basename(out)
    res = []
    panic = None
    for line in stderr.split("\n"):
        if not line.startswith("{"):
            if "panicked at" in line:
                panic = panic or line
            continue
        try:
            d = json.loads(line)
        except ValueError:
            continue
        if d.get("level") != "error":
            continue
        msg = d["message"]
        if msg.startswith("aborting due to"):
            continue
        spans = []
        for s in d["spans"]:
            t = s
            # macro expansions: climb to our own file
            while os.path.basename(t["file_name"]) != base and t.get("expansion"):
                t = t["expansion"]["span"]
            if os.path.basename(t["file_name"]) == base:
                spans.append(dict(primary=s["is_primary"], label=s.get("label") or "", line=t["line_start"], end=t["line_end"],
                                  text=" ".join(x["text"].strip() for x in t["text"])[:300]))
        k = kind_of(msg) if d.get("code") is None else "compile"
        fn, clause = None, None
        prim = [s for s in spans if s["primary"]] or spans
        for s in prim:
            o = L.at(s["line"])
            if o[0] == "fn" and not (s["label"].startswith("failed") and len(spans) > 1):
                fn = o
        for s in spans:
            if s["label"].startswith("failed") or "failed this" in s["label"]:
                clause = s
        if k == "post":
            # the function whose body ends there, not the contract's place
            for s in spans:
                if "failed this" in s["label"]:
                    continue
                o = L.at(s["line"])
                if o[0] == "fn":
                    fn = o
            if fn is None:
                for s in spans:
                    o = L.at(s["line"])
                    fn = fn or o
        if fn is None and spans:
            fn = L.at((prim or spans)[0]["line"])
        res.append(dict(kind=k, msg=msg, owner=list(fn[:2]) if fn else None, lemma=fn[2] if fn and len(fn) > 2 else None,
                        spans=spans, clause=clause["text"] if clause else None,
                        text=d.get("rendered", "")))
    return res, panic


def verus(out, extra=(), timeout=600, rlimit=None, multiple=3):
    cmd = ["verus", os.path.basename(out), "--crate-type", "lib", "--edition", "2018", "--multiple-errors", str(multiple), "--error-format=json", "--output-json", "--time-expanded"]
    if rlimit:
        cmd += ["--rlimit", str(rlimit)]
    cmd += list(extra)
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=os.path.dirname(out), env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return dict(cmd=cmd, timeout=True, errors=[], panic=None, time=time.time() - t0, result=None)
    errs, panic = diagnostics(r.stderr, out)
    try:
        res = json.loads(r.stdout)
    except ValueError:
        res = None
    return dict(cmd=cmd, timeout=False, errors=errs, panic=panic, time=time.time() - t0, result=res, stderr=r.stderr, rc=r.returncode)


if __name__ == "__main__":
    # engine.py [verus args]: extract and verify, print a summary
    os.makedirs("/tmp/b", exist_ok=True)
    out, mp = "/tmp/b/out.rs", "/tmp/b/map.json"
    m = extract(os.environ.get("SRC", "/repo/src"), out, mp, os.environ.get("C"), os.environ.get("VXO", "").split())
    for k in ("missing_fns", "missing_impls", "missing_mods"):
        if m[k]: print(k, m[k])
    for k, f in m["fns"].items():
        if f.get("lost") or f.get("unsupported"): print(k, f.get("lost"), f.get("unsupported"))
    r = verus(out, sys.argv[1:], multiple=20)
    for e in r["errors"]:
        loc = ",".join("%d" % s["line"] for s in e["spans"])
        print("%-9s %s%s  [%s]\n      %s | %s" % (e["kind"], e["owner"], "/" + e["lemma"] if e["lemma"] else "", loc, e["msg"][:150], (e["clause"] or (e["spans"][0]["text"] if e["spans"] else ""))[:200]))
    if r["panic"]: print("PANIC", r["panic"])
    print(r["time"], r["result"] and r["result"].get("verification-results"), len(r["errors"]), "errors")
