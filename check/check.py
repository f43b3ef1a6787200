#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's current tree."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine, verify
from props import PROPS

VERIF = engine.VERIF
HARNESS = os.path.join(VERIF, "harness")
EVID = os.path.join(VERIF, "evidence")
REPO = "/repo"
SESSION = {"P13", "P14", "P15", "P16", "P17", "P18", "P19", "P20", "P21", "P22", "P23", "P24"}


# ------------------------------------------------------------------ the harness, built from /repo's tree

class Harness:
    def __init__(self):
        self.exe = None
        self.log = ""
        self.hooks = True

    def build(self):
        for feats, flags in ((["--features", "hooks"], "--cfg ruq_verif"), (["--no-default-features"], "")):
            e = engine.env()
            target = os.path.join(engine.BUILD, "harness-target" if flags else "harness-target-plain")
            e["CARGO_TARGET_DIR"] = target
            if flags:
                e["RUSTFLAGS"] = flags
            r = subprocess.run(["cargo", "build", "--offline", "--locked", "-q", *feats], cwd=HARNESS, env=e,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            self.log = r.stdout
            if r.returncode == 0:
                self.exe = os.path.join(target, "debug", "ruq-harness")
                self.hooks = bool(flags)
                return

    def search(self, prop, seed, secs):
        """One concrete search; None when it cannot be run here."""
        if not self.exe or (not self.hooks and prop not in SESSION):
            return None
        try:
            r = subprocess.run([self.exe, "search", prop, str(seed), str(secs)], stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, text=True, timeout=max(180, secs * 3 + 120), cwd="/tmp")
        except subprocess.TimeoutExpired:
            return dict(evaluations=0, distinct=0, samples=[], found=None, note="the search did not end in time")
        try:
            return json.loads(r.stdout.strip().split("\n")[-1])
        except ValueError:
            return dict(evaluations=0, distinct=0, samples=[], found=None,
                        note="the search ended early (status %d): %s" % (r.returncode, r.stderr[-400:]))


# ------------------------------------------------------------------ deciding

SAFE = ("arith",)


def is_safe(e):
    """An obligation that a panic cannot happen, rather than that the result is right."""
    if e["kind"] == "arith":
        return True
    if e["kind"] == "decreases":
        return True
    if e["kind"] != "pre":
        return False
    return True


def is_faithful(e):
    return e["kind"] in ("post", "invariant", "assert", "decreases") or e["kind"] == "pre"


def wanted(p, e):
    text = (e["clause"] or "") + " " + " ".join(s["text"] for s in e["spans"])
    if p["but"] and re.search(p["but"], text):
        return False
    if p["clauses"] is not None:
        return re.search(p["clauses"], text) is not None
    if p["kinds"] == "all":
        return True
    if p["kinds"] == "safe":
        return is_safe(e)
    return is_faithful(e)


def matches(pats, key):
    return any(re.search(x, key) for x in pats)


def decide(prop, o):
    """(own functions, everything relied on, failed obligations, undecided)"""
    p = PROPS[prop]
    keys = set(o.status) if o.map else set()
    own = sorted(k for k in keys if matches(p["own"], k))
    need = sorted(k for k in keys if k not in own and matches(p["needs"], k))
    failed, undecided = [], {}
    for k in own + need:
        if o.status[k] == "undecided":
            undecided[k] = o.why[k]
        elif o.status[k] == "skipped":
            need = [x for x in need if x != k]
        elif o.status[k] == "failed":
            es = [e for e in o.fails[k] if wanted(p, e)]
            if k in own and es:
                failed.append((k, es))
            else:
                # what comes after a failed obligation is proved only as if it held
                e = (es or o.fails[k])[0]
                undecided[k] = ["another obligation of it fails: %s: %s" % (e["msg"], e["clause"])]
    for e in o.lemma_fails:
        name = e["lemma"] or (e["owner"] or [0, "?"])[1]
        if any(name.startswith(x) for x in p["lemmas"]):
            undecided["lemma " + name] = [e["msg"]]
    return own, need, failed, undecided


def head_rev():
    try:
        return subprocess.run(["git", "-C", REPO, "rev-parse", "HEAD"], stdout=subprocess.PIPE, text=True).stdout.strip()
    except OSError:
        return ""


def trusted(o):
    t = []
    txt = open(os.path.join(VERIF, "contracts", "prelude.rs")).read()
    specs = open(os.path.join(VERIF, "contracts", "specs.rs")).read()
    n_ext = len(re.findall(r"verifier::external_body", txt))
    n_ass = len(re.findall(r"assume_specification", txt))
    t.append("contracts/prelude.rs: %d trusted (external_body) items and %d assumed specifications stand for std, bytes, futures, tokio, tokio-util, anyhow" % (n_ext, n_ass))
    if re.search(r"\b(assume|admit)\s*\(|external_body", specs):
        t.append("contracts/specs.rs contains trusted items")
    t.append("vx (the extractor) and its rewrites: " + "; ".join("%s x%d" % kv for kv in sorted(o.map["rewrites"].items())))
    if o.map.get("inlined"):
        t.append("functions the contracts do not know, verified as part of their callers (vx/src/inline.rs): " + ", ".join(o.map["inlined"]))
    t.append("left out of the extraction: " + "; ".join(o.map["dropped"]))
    t.append("Verus 0.2026.09.13 with its vstd library and Z3; rustc")
    return t


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(engine.BUILD, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    replay = os.path.join(EVID, "%s.replay.txt" % prop)
    if os.path.exists(replay):
        os.remove(replay)

    h = Harness()
    th = threading.Thread(target=h.build)
    th.start()
    p = PROPS[prop]
    o = verify.run(view=p["view"] or "P20", skip=[] if p["view"] else ["poll"])
    th.join()
    if o.problem:
        print("note: the verifier decided nothing: " + o.problem[:600])

    own, need, failed, undecided = decide(prop, o)
    gone = [k for k in getattr(o, "gone", []) if matches(PROPS[prop]["own"], k)]
    for g in gone:
        undecided.setdefault(g, ["the code of this contract is gone"])
    if not own and not PROPS[prop]["lemmas"]:
        undecided["-"] = ["none of the functions of this property was found"]
    settled = not failed and not undecided and not o.problem
    if settled:
        secs = 2 if tier == "quick" else 60
    else:
        secs = 25 if tier == "quick" else 240
    found, s = None, None
    rounds = 1 if tier == "quick" else 2
    agg = dict(evaluations=0, distinct=0, samples=[])
    notes = []
    for i in range(rounds):
        s = h.search(prop, seed + i, secs)
        if s is None:
            notes.append("no concrete search: " + ("the harness does not build against this tree" if not h.exe or not h.hooks else "none for this property"))
            break
        agg["evaluations"] += s["evaluations"]
        agg["distinct"] += s["distinct"]
        agg["samples"] = agg["samples"] or s["samples"]
        if s.get("note"):
            notes.append(s["note"])
        if s["found"]:
            found = s["found"]
            break

    violation = found is not None or bool(failed)
    known = known_findings(prop)
    if found and not failed and any(k in found["what"] or k in found["case"] for k in known):
        violation = False
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))

    # evidence
    closure = set(own + need)
    names = {}
    for k in closure:
        mod = k.rsplit("::<", 1)[0] if "::<" in k else "::".join(k.split("::")[:-1])
        names.setdefault(verify.last(k), set()).add(mod)
    q = [x for x in o.queries if x[1] in names and (x[2] == "exec")]
    q = [x for x in q if any(m == x[0] or m.startswith(x[0] + "::") or x[0] == "" for m in names[x[1]])]
    lem = [x for x in o.queries if x[0].startswith(("vxs", "vxt", "vxl"))]
    obligations = len(q) + len(lem)
    discharged = sum(1 for x in q + lem if x[4])
    cov = dict(
        obligations=obligations, discharged=discharged,
        checker_cmd="vx --src /repo/src --contracts /verif/contracts --out out.rs --map map.json && " + (o.cmd or "verus out.rs"),
        trusted_base=trusted(o) if o.map else [],
        functions_under_contract=own, functions_relied_on=need,
        function_status={k: o.status[k] for k in own + need},
        whole_crate=dict(verified=o.verified, errors=o.errors, queries=len(o.queries)),
        solver="Z3 (through Verus)", solver_ms=round(sum(x[3] for x in q + lem) / 1000.0, 1), verifier_wall_s=round(o.verus_s, 1),
        extraction_rounds=o.rounds, extraction_options=o.opts,
        undecided=undecided, failed={k: [e["msg"] + ": " + (e["clause"] or "") for e in es] for k, es in failed},
        conformance_search=dict(agg, note="; ".join(notes), bounded=True, seconds=secs),
    )
    level = "proof"
    if not settled:
        level = "exploration"
        cov.update(evaluations=agg["evaluations"], distinct_nontrivial=agg["distinct"],
                   rule="concrete cases of the property's search against an independent oracle; distinct by their text", samples=agg["samples"] or ["-"])
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=ASSUME, wall_s=round(time.time() - t0, 2), violations=int(violation))
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)

    if violation:
        with open(replay, "w") as f:
            f.write("property: %s\nrepo: %s\nseed: %d tier: %s\n" % (prop, head_rev(), seed, tier))
            if found:
                f.write("\nfailing input, run against the crate's own code (harness/, subcommand `replay`):\ncase: %s\nwhat: %s\n" % (found["case"], found["what"]))
            for k, es in failed:
                for e in es:
                    f.write("\nfailed obligation in %s (%s:%s): %s\n  clause: %s\n%s\n" % (
                        k, o.map["fns"][k]["file"], o.map["fns"][k]["line"], e["msg"], e["clause"], e["text"]))
        if found:
            print("%s: %s\n  %s" % (prop, found["what"][:600], found["case"][:300]))
        for k, es in failed:
            for e in es[:2]:
                print("%s: obligation of %s fails: %s: %s" % (prop, k, e["msg"], e["clause"] or (e["spans"][0]["text"] if e["spans"] else "")))
        print("VIOLATION property=%s replay=%s%s" % (prop, replay, "" if found else " no-failing-input-found"))
        return 1
    if settled:
        print("%s: proved: %d of %d obligations, %d functions under contract, %d more relied on; %d concrete cases agree" % (
            prop, discharged, obligations, len(own), len(need), agg["evaluations"]))
    else:
        print("%s: not proved on this tree, held on %d concrete cases (bounded)" % (prop, agg["evaluations"]))
        for k, w in sorted(undecided.items())[:12]:
            print("  undecided: %s: %s" % (k, "; ".join(w)[:300]))
    return 0


def known_findings(prop):
    p = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out.append(m.group(2).strip())
    return out


ASSUME = [
    "usize has 64 bits",
    "the models of std, bytes, futures, tokio and tokio-util in contracts/prelude.rs say no more than those libraries keep",
    "allocation does not fail",
    "async code is verified as the sequence of its own steps: suspension points only interleave with code that shares no state with it",
]

if __name__ == "__main__":
    sys.exit(main())
