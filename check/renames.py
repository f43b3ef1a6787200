"""Names which only changed: the contracts speak of the code by its names, and a renamed local, field or private function is
the same code. Nothing is trusted here: a renaming is applied to the text of the contracts, whose obligations are then generated
from the source as it is."""
import difflib, os, re

# methods of the libraries: such a name stands for them, whatever else it may stand for
COMMON = set("""len is_empty get push pop insert remove contains iter next clone take send poll flush write read find first last min max eq cmp start
end clear truncate extend append drain map filter position any all as_ref as_mut as_str as_slice as_bytes to_vec to_string to_owned into is_some is_none
is_ok is_err unwrap expect ok err and or xor kind get_mut push_back pop_front push_front pop_back front back retain split_off is_full reset tick feed close""".split())

IDENT = re.compile(r"[A-Za-z_][A-Za-z0-9_]*$")


def trim(a, b):
    n = 0
    while n < len(a) and n < len(b) and a[n] == b[n]:
        n += 1
    m = 0
    while m < len(a) - n and m < len(b) - n and a[-1 - m] == b[-1 - m]:
        m += 1
    return a[n:len(a) - m], b[n:len(b) - m]


def pairs(a, b, olds, news):
    """old -> new for names of `olds` which `a` has and `b` has not, at whose places `b` has one name of `news`."""
    olds = {w for w in set(a) - set(b) if w in olds and IDENT.match(w)}
    news = {w for w in set(b) - set(a) if w in news and IDENT.match(w)}
    if not olds or not news:
        return {}
    a, b = trim(a, b)
    votes = {}
    for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, a, b, autojunk=False).get_opcodes():
        if tag == "replace" and i2 - i1 == j2 - j1:
            for x, y in zip(a[i1:i2], b[j1:j2]):
                if x in olds and y in news:
                    votes.setdefault(x, {}).setdefault(y, 0)
                    votes[x][y] += 1
    res = {}
    for x, c in votes.items():
        y = max(c, key=c.get)
        if len(c) == 1 and list(res.values()).count(y) == 0 and all(y not in d for o, d in votes.items() if o != x):
            res[x] = y
    return res


def crate(base, now):
    """Options of the extraction for names of the whole crate."""
    bw, nw = base.get("words", {}), now.get("words", {})
    olds = {w for t in bw.values() for w in t} - {w for t in nw.values() for w in t}
    news = {w for t in nw.values() for w in t} - {w for t in bw.values() for w in t}
    # what only ever stands behind a dot or colons is not the crate's: a library's method in place of another is no new name for it
    def declared(words):
        return {x for t in words.values() for i, x in enumerate(t) if i == 0 or t[i - 1] not in (".", ":")}
    olds &= declared(bw)
    news &= declared(nw)
    locs = {w for f in base["fns"].values() for w in f.get("locals", [])}
    glob = {}
    for m in bw:
        if m in nw and bw[m] != nw[m]:
            for x, y in pairs(bw[m], nw[m], olds - locs, news).items():
                if glob.get(x, y) == y:
                    glob[x] = y
                else:
                    glob[x] = None
    glob = {x: y for x, y in glob.items() if y}
    res = []
    for x, y in sorted(glob.items()):
        res += ["--rename", "%s=%s" % (x, y)]
    return res


def clashes(base, now, contracts):
    """New names of the code which are names of specification functions."""
    new = {w for t in now.get("words", {}).values() for w in t} - {w for t in base.get("words", {}).values() for w in t}
    def fns(f):
        return set(re.findall(r"\bfn (\w+)", open(os.path.join(contracts, f)).read()))
    spec = (fns("specs.rs") | fns("session.rs") | fns("lemmas.rs")) - fns("prelude.rs")
    res = []
    for w in sorted(new & spec):
        res += ["--rename", "%s=vx_%s" % (w, w)]
    return res


def places(t):
    """Tokens, with what stands in a path kept apart from local names."""
    return [x + "::" if t[i + 1:i + 3] == [":", ":"] else "::" + x if i > 1 and t[i - 2:i] == [":", ":"] else x for i, x in enumerate(t)]


def local(base, now):
    """Options of the extraction for the local names of one function each."""
    res = []
    for k, f in sorted(now["fns"].items()):
        b = base["fns"].get(k)
        if b and b["hash"] != f["hash"] and b.get("tokens"):
            for x, y in sorted(pairs(places(b["tokens"]), places(f["tokens"]), set(b["locals"]), set(f["locals"])).items()):
                res += ["--rename-in", "%s|%s=%s" % (k, x, y)]
    return res
