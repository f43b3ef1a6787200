"""Extract /repo's current source, verify it, and say for every function what became of its obligations."""
import json, os, re, shutil, tempfile, time
import engine, renames

FAITHFUL = ("post", "invariant", "assert", "decreases", "pre", "arith")


class Outcome:
    def __init__(self):
        self.map = None          # the extraction's own account
        self.status = {}         # function key -> "proved" | "failed" | "undecided"
        self.why = {}            # function key -> reasons it is undecided
        self.fails = {}          # function key -> failed obligations
        self.lemma_fails = []    # failed obligations outside extracted functions
        self.queries = []        # (module, function, mode, time in us, proved)
        self.verified = 0
        self.errors = 0
        self.verus_s = 0.0
        self.rounds = 0
        self.cmd = ""
        self.opts = []
        self.problem = None      # the verifier gave nothing at all
        self.output = ""

    def intact(self, key):
        return key in self.map["fns"] and not self.why.get(key)


def baseline():
    p = os.path.join(engine.VERIF, "check", "baseline.json")
    return json.load(open(p)) if os.path.exists(p) else {"fns": {}}


def last(key):
    return key.rsplit("::", 1)[-1]


def run(src="/repo/src", work=None, contracts=None, rlimit=100, rounds=14, keep=None, view="P20", skip=()):
    """`view` chooses the clauses of the session's contract (lines `@P13,P18 ...`); functions in `skip` keep their contract and
    lose their body: what they compute is not looked at."""
    o = Outcome()
    o.skip = set(skip)
    own = work is None
    work = work or tempfile.mkdtemp(prefix="vx-", dir=engine.BUILD if os.path.isdir(engine.BUILD) else None)
    whole = baseline()
    base = whole["fns"]
    out, mp = os.path.join(work, "out.rs"), os.path.join(work, "map.json")
    level = {}       # function key -> 1 no hints, 2 no body, 3 no contract
    drop_inj, drop_use = set(), set()
    res = None
    o.renamed = []
    o.inline = []
    try:
        try:
            first = ["--view", view]
            m = engine.extract(src, out, mp, contracts, first)
            o.renamed = renames.crate(whole, m) + renames.clashes(whole, m, contracts or os.path.join(engine.VERIF, "contracts"))
            # with the crate's names known again, a function that goes by a new name is found by its old one
            m = engine.extract(src, out, mp, contracts, first + o.renamed)
            # functions the contracts do not know are verified where they are called
            # (a method called on something other than `self` only if its name is not used for anything else)
            used = {t for f in base.values() for t in f["tokens"]} | renames.COMMON
            names = lambda ns: [a for n in ns for a in ["--inline", n] + ([] if n in used else ["--inline", "." + n])]
            o.inline = names(sorted({last(k) for k in m["fns"] if k not in base}))
            if o.inline:
                m = engine.extract(src, out, mp, contracts, first + o.renamed + o.inline)
                o.inline = names(m["inlined"])
            o.renamed += renames.local(whole, m)
        except engine.Failure as e:
            o.problem = str(e)
            return o
        for rnd in range(rounds):
            o.rounds = rnd + 1
            opts = ["--view", view] + o.renamed + o.inline
            for k in sorted(o.skip - set(level)):
                opts += ["--no-body", k]
            for k, l in sorted(level.items()):
                opts += [["--no-hints", k], ["--no-body", k], ["--no-contract", k]][l - 1]
            for i in sorted(drop_inj):
                opts += ["--drop-inject", i]
            for u in sorted(drop_use):
                opts += ["--drop-use", u]
            o.opts = opts
            try:
                o.map = engine.extract(src, out, mp, contracts, opts)
            except engine.Failure as e:
                o.problem = str(e)
                return o
            L = engine.Lines(out)
            extra = []
            res = engine.verus(out, extra, rlimit=rlimit, timeout=420)
            o.verus_s += res["time"]
            if res["timeout"]:
                # the function still running cannot be told from here; try the changed ones without their bodies
                changed = [k for k, f in o.map["fns"].items() if base.get(k, {}).get("hash") != f["hash"] and level.get(k, 0) < 2]
                if not changed or rnd > 2:
                    o.problem = "the verifier ran out of time"
                    break
                for k in changed:
                    level[k] = 2
                continue
            comp = [e for e in res["errors"] if e["kind"] == "compile" or (e["kind"] == "decreases" and "must have" in e["msg"])]
            vir = not res["result"] or not res["result"].get("verification-results") or res["result"]["verification-results"].get("encountered-vir-error") or "verified" not in res["result"]["verification-results"]
            if not comp and not res["panic"] and not vir:
                break
            moved = False
            blamed = set()
            for e in comp:
                ow = e["owner"]
                if not ow:
                    continue
                blamed.add(tuple(ow))
            for kind, key in sorted(blamed):
                if kind == "fn":
                    if level.get(key, 0) < 3:
                        # nothing but proof hints may be at fault when the code itself did not change
                        f = o.map["fns"].get(key, {})
                        l = level.get(key, 0)
                        if l == 0 and f.get("contract") and not f.get("unsupported"):
                            level[key] = 1
                        elif l <= 1:
                            level[key] = 2
                        else:
                            level[key] = 3
                        moved = True
                elif kind == "inject" and key not in drop_inj:
                    drop_inj.add(key)
                    moved = True
                elif kind == "use" and key not in drop_use:
                    drop_use.add(key)
                    moved = True
            if not moved and o.inline:
                # perhaps the bodies do not fit where they were put
                o.inline, level, drop_inj, drop_use = [], {}, set(), set()
                continue
            if not moved:
                # no place given (the verifier stopped inside itself): the functions that changed are suspects
                changed = [k for k, f in o.map["fns"].items()
                           if base.get(k, {}).get("hash") != f["hash"] and level.get(k, 0) < 3]
                if not changed:
                    o.problem = "the verifier rejected the extraction: " + (res["panic"] or (comp[0]["msg"] if comp else "no result"))
                    break
                for k in changed:
                    level[k] = max(2, level.get(k, 0) + 1)
        else:
            o.problem = "no extraction was accepted in %d rounds" % rounds
        o.cmd = " ".join(res["cmd"]) if res else ""
        o.output = "\n".join(e["text"] for e in (res["errors"] if res else []))
        collect(o, res, level, drop_inj, base)
        if keep:
            shutil.copy(out, keep)
        return o
    finally:
        if own:
            shutil.rmtree(work, ignore_errors=True)


def recast(b, f):
    """A function whose loops are of other kinds, or which has loops and other locals."""
    if not b or not f or b["hash"] == f["hash"] or not (b["loops"] or f["loops"]):
        return False
    kinds = [[t for t in x["tokens"] if t in ("for", "while", "loop")] for x in (b, f)]
    if kinds[0] != kinds[1]:
        return True
    return "select" not in f["tokens"] and set(b["locals"]) != set(f["locals"])


def collect(o, res, level, drop_inj, base):
    fns = o.map["fns"] if o.map else {}
    if o.problem:
        for k in fns:
            o.status[k] = "undecided"
            o.why[k] = [o.problem]
        return
    new = {last(k) for k in fns if k not in base and not fns[k].get("derived")}
    for k, f in fns.items():
        why = []
        if level.get(k):
            why.append(["its proof hints", "its body", "its contract"][level[k] - 1] + " could not be given to the verifier")
        if f["lost"]:
            why.append("contract anchors not found: " + ", ".join(f["lost"]))
        if f["unsupported"]:
            why.append("not supported: " + ", ".join(f["unsupported"]))
        b = base.get(k)
        if b is None and f.get("derived"):
            pass
        elif b is None:
            why.append("new function, no contract")
        else:
            if b["contract"] and not f["contract"]:
                why.append("contract not applied")
            if b["hash"] != f["hash"]:
                if b["loops"] != f["loops"]:
                    why.append("%d loops, the contract knows %d" % (f["loops"], b["loops"]))
                called = sorted(c for c in f["calls"] if c in new and c not in b["calls"])
                if called:
                    why.append("calls functions without a contract: " + ", ".join(called))
        if k in o.map["default_impls"] or any(d and k.startswith(d) for d in o.map["default_impls"]):
            why.append("implementation without a contract")
        for i in drop_inj:
            if i.startswith("impl ") and k.startswith(i[5:] + "::"):
                why.append("its trait contract could not be given to the verifier")
        if why:
            o.why[k] = why
    for e in res["errors"]:
        ow = e["owner"]
        if e["kind"] == "rlimit":
            if ow and ow[0] == "fn":
                o.why.setdefault(ow[1], []).append("the solver gave up")
            else:
                o.lemma_fails.append(e)
            continue
        if ow and ow[0] == "fn":
            o.fails.setdefault(ow[1], []).append(e)
        else:
            o.lemma_fails.append(e)
    # what a loop keeps is said in the terms of the loop as it was: where that was written anew, an invariant that fails says
    # nothing about the code
    for k, es in o.fails.items():
        if not o.why.get(k) and recast(base.get(k), fns.get(k)) and any(e["kind"] != "post" for e in es):
            o.why[k] = ["its loop was rewritten, the invariants are of the old one: %s: %s" % (es[0]["msg"], es[0]["clause"])]
    # a contract whose function is gone
    o.gone = list(o.map["missing_fns"]) + list(o.map["missing_impls"])
    for k in fns:
        if o.why.get(k):
            o.status[k] = "undecided"
        elif k in o.skip:
            o.status[k] = "skipped"
        elif k in o.fails:
            o.status[k] = "failed"
        else:
            o.status[k] = "proved"
    for k in o.map["missing_fns"]:
        o.status[k] = "undecided"
        o.why[k] = ["the function of this contract is gone"]
    r = res["result"]["verification-results"]
    o.verified, o.errors = r.get("verified", 0), r.get("errors", 0)
    for m in res["result"]["times-ms"].get("smt", {}).get("smt-run-module-times", []):
        for f in m["function-breakdown"]:
            o.queries.append((m["module"], f["function"].rsplit("::", 1)[-1], f.get("mode:", f.get("mode", "")), f["time-micros"], f["success"]))


if __name__ == "__main__":
    import sys
    t = time.time()
    os.makedirs(engine.BUILD, exist_ok=True)
    if sys.argv[1:2] == ["baseline"]:
        o = run(rounds=6)
        assert not o.problem, o.problem
        fns = {k: {"hash": f["hash"], "contract": f["contract"], "loops": f["loops"], "calls": f["calls"], "locals": f["locals"], "tokens": f["tokens"]} for k, f in sorted(o.map["fns"].items())}
        with open(os.path.join(engine.VERIF, "check", "baseline.json"), "w") as w:
            w.write("{\"fns\": {\n" + ",\n".join(json.dumps(k) + ": " + json.dumps(f) for k, f in fns.items()) + "\n},\n\"words\": {\n"
                    + ",\n".join(json.dumps(k) + ": " + json.dumps(t) for k, t in sorted(o.map["words"].items())) + "\n}}\n")
        print(len(fns), "functions")
    else:
        v = os.environ.get("VIEW")
        o = run(os.environ.get("SRC", "/repo/src"), view=v or "P20", skip=[] if v else ["poll"], keep="/tmp/b/out.rs" if os.path.isdir("/tmp/b") else None)
        print("problem:", o.problem, "rounds", o.rounds, "opts", o.opts)
        for k, s in sorted(o.status.items()):
            if s != "proved":
                print(s, k, o.why.get(k), [(e["kind"], e["msg"], e["clause"], e["spans"][0]["line"] if e["spans"] else 0) for e in o.fails.get(k, [])])
        for e in o.lemma_fails:
            print("lemma", e["kind"], e["owner"], e["lemma"], e["msg"], e["clause"])
        print(o.verified, o.errors, len(o.queries), "%.1f" % (time.time() - t))
