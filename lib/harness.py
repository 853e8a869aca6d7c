"""Shared machinery: builds the driver from /repo's working tree, runs scripted
sessions on it, runs TLC, compares, and writes evidence."""
import atexit, concurrent.futures as cf, copy, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TGT_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
NCPU = os.cpu_count() or 4
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"

SCRATCH = tempfile.mkdtemp(prefix="tgtv-")
atexit.register(lambda: shutil.rmtree(SCRATCH, ignore_errors=True))


class Broken(Exception):
    """The machinery itself failed (exit 2)."""


def log(*a):
    print("#", *a, flush=True)


# ------------------------------------------------------------------ building
VARIANTS = {
    "asan": ["-O0", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-O1", "-g", "-fsanitize=thread"],
    "fast": ["-O2"],
}


def build(variant="asan"):
    src = sorted(os.path.join(REPO, "src", f) for f in os.listdir(os.path.join(REPO, "src")) if f.endswith(".cpp"))
    inc = os.path.join(REPO, "include", "tinygettext")
    drv = os.path.join(VERIF, "driver", "drv.cpp")
    h = hashlib.sha256(repr(VARIANTS[variant]).encode())
    for f in src + [drv] + sorted(os.path.join(inc, x) for x in os.listdir(inc)):
        h.update(f.encode() + b"\0" + open(f, "rb").read())
    cache = os.path.join(VERIF, ".cache")
    exe = os.path.join(cache, "drv-%s-%s" % (variant, h.hexdigest()[:20]))
    if os.path.exists(exe):
        return exe
    out = os.path.join(SCRATCH, "build-" + variant)
    os.makedirs(out, exist_ok=True)
    flags = ["-std=c++17", "-w", "-pthread", "-Wl,--wrap=iconv_open,--wrap=iconv_close", "-I" + os.path.join(REPO, "include")] + VARIANTS[variant]

    def comp(f):
        o = os.path.join(out, os.path.basename(f) + ".o")
        r = subprocess.run(["clang++"] + flags + ["-c", f, "-o", o], capture_output=True, text=True)
        if r.returncode:
            raise Broken("compiling %s: %s" % (f, r.stderr[-2000:]))
        return o
    with cf.ThreadPoolExecutor(NCPU) as ex:
        objs = list(ex.map(comp, [drv] + src))
    tmp = os.path.join(out, "drv")
    r = subprocess.run(["clang++"] + flags + objs + ["-o", tmp], capture_output=True, text=True)
    if r.returncode:
        raise Broken("linking: " + r.stderr[-2000:])
    os.makedirs(cache, exist_ok=True)
    for old in os.listdir(cache):   # keep the cache small
        p = os.path.join(cache, old)
        if time.time() - os.path.getmtime(p) > 3600:
            os.unlink(p)
    fin = exe + ".%d" % os.getpid()
    shutil.copy2(tmp, fin)
    os.rename(fin, exe)
    return exe


# ------------------------------------------------------------------ sessions
def X(b):
    if isinstance(b, str):
        b = b.encode()
    return "x" + bytes(b).hex()


# argument shapes of the calls: b bytes, n number, w word, B* byte texts, N* numbers
OPS = {
    "cb": "sev:n sink:n", "logtext": "", "dict": "d:n cs:b", "parsek": "d:n k:n file:b", "each": "d:n stop:n", "parse": "d:n ped:n failat:n file:b", "dump": "d:n",
    "tr": "d:n id:b", "trp": "d:n id:b pl:b n:n", "trc": "d:n cx:b id:b", "trcp": "d:n cx:b id:b pl:b n:n",
    "add": "d:n id:b s:b", "addp": "d:n id:b id:b s:B*", "addc": "d:n cx:b id:b s:b", "addcp": "d:n cx:b id:b id:b s:B*",
    "setpl": "d:n h:b", "setplf": "d:n u:n", "peq": "k:n j:n", "fb": "d:n f:n", "charset": "d:n", "ic": "k:n from:b to:b", "cv": "k:n t:b",
    "pf": "k:n h:b", "pe": "k:n n:N*", "per": "k:n lo:n hi:n", "psweep": "k:n lo:n hi:n step:n",
    "spec": "l:b c:b m:b", "env": "s:b", "name": "s:b", "match": "a:b b:b", "fn": "s:b", "keys": "l:B*",
    "fs": "f:n", "put": "f:n dir:b name:b mode:m content:b", "mode": "f:n dir:b name:b mode:m", "dirfail": "f:n dir:b n:n",
    "q": "k:w a:B+n", "mgr": "m:n f:f cs:b", "mdel": "m:n", "adddir": "m:n dir:b prec:n", "rmdir": "m:n dir:b",
    "setlang": "m:n s:b", "getlang": "m:n", "setcs": "m:n cs:b", "setfuzzy": "m:n v:n", "get": "m:n s:b", "cur": "m:n",
    "langs": "m:n", "umk": "path:b", "uw": "path:b content:b", "uln": "path:b to:b", "urm": "path:b", "uls": "dir:b", "ucat": "path:b",
    "thr": "nt:n rep:n calls:C", "share": "nt:n rep:n k:n a:n", "icc": "k:n from:b to:b", "icd": "k:n", "held": "h:n", "hadd": "h:n id:b s:b", "haddcp": "h:n cx:b id:b id:b s:B*", "sw": "m:n s:b", "ask": "m:n s:b dir:b", "repeat": "", "end": "", "locale": "k:n", "wear": "n:n", "reent": "calls:C",
}


def line_of(e):
    """One script line from an event given as a record."""
    out = [e["op"]]
    for part in OPS[e["op"]].split():
        k, t = part.split(":")
        if t == "b":
            out.append(X(e[k]))
        elif t in ("n", "w"):
            out.append(str(e[k]))
        elif t == "m":
            out.append(e[k] + (str(e["at"]) if e[k] in ("fail", "xfail") else ""))
        elif t == "f":
            out.append("unix" if e[k] == 0 else str(e[k]))
        elif t == "B*":
            out += [X(b) for b in e[k]]
        elif t == "B+n":
            out += [X(b) for b in e[k]] + ([str(e["n"])] if e["k"] in ("trp", "trcp") else [])
        elif t == "N*":
            out += [str(n) for n in e[k]]
        elif t == "C":
            for c in e[k]:
                out += [c["k"], X(c["a"])]
    if e["op"] == "parse" and "pad" in e:
        out += [str(e["pad"]), X(e["name"])]
    for k in ("h", "kind"):
        if e["op"] in ("get", "cur", "dirfail") and k in e:
            out.append(str(e[k]))
    return " ".join(out)


ENV = dict(os.environ, LC_ALL="C", LANG="C",
           ASAN_OPTIONS="detect_leaks=0:hard_rss_limit_mb=3000:allocator_may_return_null=1:abort_on_error=0:exitcode=77",
           UBSAN_OPTIONS="halt_on_error=1:exitcode=77", TSAN_OPTIONS="halt_on_error=1:exitcode=66:second_deadlock_stack=0")


def locales():
    """Locales with one byte per character, in which letters are not only those of ASCII."""
    d = os.path.join(SCRATCH, "locale")
    with LOCALES:
        if not os.path.isdir(d):
            os.makedirs(d)
            for name, src, cs in (("tr_TR.ISO-8859-9", "tr_TR", "ISO-8859-9"), ("de_DE.ISO-8859-1", "de_DE", "ISO-8859-1")):
                try:
                    subprocess.run(["localedef", "-i", src, "-f", cs, os.path.join(d, name)], capture_output=True)
                except OSError:
                    log("no localedef: only the C++ locale is varied")
    return d


LOCALES = threading.Lock()


def chunked(sessions, jobs=NCPU):
    """What is run in one process each."""
    jobs = max(1, min(jobs, (len(sessions) + 15) // 16))
    return [sessions[i::jobs] for i in range(jobs)]


def before(sessions, sid, jobs=NCPU):
    """The scripts run in the same process up to session sid."""
    for c in chunked(sessions, jobs):
        for k, (i, _) in enumerate(c):
            if i == sid:
                return [l for _, l in c[:k]]
    return []


def run_driver(exe, sessions, timeout=10, isolate=False, jobs=NCPU):
    """sessions: list of (id, [script lines]); returns {id: [events]}."""
    chunks = chunked(sessions, jobs)
    jobs = len(chunks)

    def one(i):
        wd = tempfile.mkdtemp(prefix="run-", dir=SCRATCH)
        sf, of = os.path.join(wd, "script"), os.path.join(wd, "out")
        with open(sf, "w") as f:
            for sid, lines in chunks[i]:
                f.write("S %s\n%s\n" % (sid, "\n".join(lines)))
        cmd = [exe, sf, of, str(timeout)] + (["isolate"] if isolate else [])
        env = dict(ENV, LOCPATH=locales()) if any(l.startswith("locale ") for _, ls in chunks[i] for l in ls) else ENV
        r = subprocess.run(cmd, env=env, cwd=wd, capture_output=True)
        if r.returncode:
            raise Broken("driver ended with %d: %s" % (r.returncode, r.stderr[-1500:].decode(errors="replace")))
        res = {}
        with open(of, "rb") as f:
            for l in f:
                try:
                    d = json.loads(l)
                except ValueError:
                    m = re.search(rb'\{"s":(\d+),"e":\{"op":"crash"[^}]*\}\}$', l)  # crash within a write
                    if not m:
                        raise Broken("driver wrote %r" % l[:200])
                    d = json.loads(m.group(0))
                res.setdefault(d["s"], []).append(d["e"])
        shutil.rmtree(wd, ignore_errors=True)
        return res
    out = {}
    with cf.ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(one, range(jobs)):
            out.update(r)
    return out


def budget(got):
    """What the driver counts before it gives up on its sessions."""
    return sum((10 if g[-1]["sig"] == 14 else 1) for g in got.values() if g[-1]["op"] == "crash")


# ------------------------------------------------------------------ comparing
def canon(v):
    return json.dumps(v, sort_keys=True)


def sameset(a, b):
    return sorted(map(canon, a)) == sorted(map(canon, b))


def agrees(f, x, e, ids, got):
    """Mirror of Conform!Agrees for expectations printed by TLC (sets are arrays)."""
    if f in ("ent", "ctx", "rs", "told", "pvs", "ents"):
        return sameset(e[f], x[f])
    if f == "warn":
        return set(e["warn"]) == set(x["warn"])
    if f == "infoB":
        return x[f] == (e["info"] > 0)
    if f == "warnB":
        return x[f] == (e["warn"] != [])
    if f == "errB":
        return x[f] == (e["err"] != [])
    if f == "sinks":
        return all(sum(1 for m in e["log"] if m[0] == n + 1) == x[f][n] for n in range(3))
    if f == "cerrB":
        return x[f] == (e["cerr"] != [])
    if f == "about":
        return not e["log"] or any(all(bytes(t) in bytes(m[1]) for t in x[f]) for m in e["log"])
    if f == "like":
        l = x[f]
        to = [[l["now"][l["was"].index(m[0])], m[1]] for m in got[l["k"] - 1]["log"]]
        return [m for m in to if m[0] in (1, 2, 3)] == e["log"] and all(bytes(m[1]) in bytes(e["cerr"]) for m in to if m[0] == 4)
    if f == "thr":
        return all(sameset(c["r"][g], v) if g in ("ent", "ctx") else c["r"][g] == v for t in e["t"] for c in t for g, v in (x[f][c["c"] - 1] or {}).items())
    if f == "re":
        return all(c["r"]["exc"] == 1 or e["exc"] == 1 or c["r"]["id"] == e["id"] if g == "same" else g in c["r"] and (sameset(c["r"][g], v) if g in ("ent", "ctx") else c["r"][g] == v)
                   for c in e["re"] for g, v in (x[f][c["c"] - 1] or {}).items())
    if f == "rin":
        return e["r"] in x[f]
    if f == "heap":
        return e["heap"] <= 0
    if f == "v":
        def fits(want, got, below):
            return len(want) == len(got) and all((0 <= g and (g < below or below == g == 0)) if w == -1 else g == w for w, g in zip(want, got))
        return fits(x["v"], e["v"], 1 if x["alt"] else x["below"]) or (
            x["alt"] and fits(x["alt"], e["v"], x["below"]) and all(g < x["below"] for g in e["v"]))
    if f in ("below", "alt"):
        return True
    if f == "maybe":
        return (e["def"] == 0 and e["np"] == 0) or (x[f] > 0 and e["def"] == 1 and e["np"] == x[f])
    if f == "order":
        return e["lt"] + e["gt"] == x[f] and (x[f] == 1 or e["heq"] == 1)
    if f == "rf":
        return e["r"] == x[f]
    if f == "set":
        return sameset(e["r"], x[f])
    if f == "fo":
        return x[f] == [[]] or sorted(e[f]) == sorted(x[f])
    if f == "fl":
        return all(e[f].count(v) <= x[f].count(v) for v in e[f])
    if f in ("seen1", "seen2"):
        al = {canon(v) for v in x[f]["all"]}
        got_ = [canon(v) for v in e[f]]
        return len(got_) == x[f]["n"] and len(set(got_)) == len(got_) and set(got_) <= al
    if f == "places":
        return sameset(e[f], x[f])
    if f == "obj":
        k = canon(x[f])
        return ids[k] == e["id"] if k in ids else all(v != e["id"] for v in ids.values())
    return e[f] == x[f]


def compare(want, got, mask):
    """want: [(event, expectation)], got: [event]; first difference or None."""
    ids = {}
    gens = {}
    for n, (e, x) in enumerate(want):
        if n >= len(got):
            return n + 1, ["missing"], x, None
        g = got[n]
        if g["op"] == "crash":
            return n + 1, ["crash"], x, g
        if "obj" in x:
            m, (gen, _) = x["obj"]
            if gen >= 0 and gens.get(m) != gen:   # earlier objects of this manager are gone
                ids = {k: v for k, v in ids.items() if json.loads(k)[0] != m or json.loads(k)[1][0] == -1}
                gens[m] = gen
        bad = [f for f in x if (f in mask or "all" in mask or (f == "rin" and "r" in mask)) and not agrees(f, x, g, ids, got)]
        if bad:
            return n + 1, bad, x, g
        if "obj" in x:
            ids[canon(x["obj"])] = g["id"]
    return None


# ------------------------------------------------------------------ TLC
class TlcResult:
    pass


def tlc(module, cfg_text, env=None, workers=None, extra=(), timeout=840, want_prints=True, sink=None, xmx="6g"):
    """Runs TLC; returns result with states, transitions, prints, violation."""
    wd = tempfile.mkdtemp(prefix="tlc-", dir=SCRATCH)
    cfg = os.path.join(wd, module + ".cfg")
    open(cfg, "w").write(cfg_text)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + xmx, "-Xss256m", "-Djava.io.tmpdir=" + wd, "-cp", JARS, "tlc2.TLC",
           "-config", cfg, "-metadir", os.path.join(wd, "meta"), "-noGenerateSpecTE", "-nowarning",
           "-workers", str(workers or NCPU)] + list(extra) + [module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    res = TlcResult()
    res.prints, res.tail = [], []
    res.states = res.distinct = 0
    res.actions = {}
    timer = threading.Timer(timeout, p.kill)
    timer.start()
    for raw in p.stdout:
        if raw.startswith(b'"@'):
            d = raw[1:3], json.loads(json.loads(raw)[2:])
            if sink:
                sink(*d)
            elif want_prints:
                res.prints.append(d)
            continue
        l = raw.decode(errors="replace").rstrip("\n")
        res.tail.append(l)
        if len(res.tail) > 400:
            del res.tail[:100]
        m = re.match(r"([\d,]+) states generated, ([\d,]+) distinct states found", l)
        if m:
            res.states, res.distinct = (int(x.replace(",", "")) for x in m.groups())
        m = re.match(r"^<(\w+) line .*>: (\d+):(\d+)", l.strip())
        if m:
            res.actions[m.group(1)] = int(m.group(3))
    rc = p.wait()
    timer.cancel()
    shutil.rmtree(wd, ignore_errors=True)
    res.wall = time.time() - t0
    text = "\n".join(res.tail)
    res.violated = None
    m = re.search(r"Invariant (\w+) is violated|Action property (\w+) is violated|Temporal properties were violated|Assumption .* is false", text)
    if m:
        res.violated = m.group(0)
    if rc != 0 or "Model checking completed. No error" not in text:
        if "-simulate" in " ".join(extra) and rc == 0 and not res.violated:
            return res
        if not res.violated:
            raise Broken("TLC on %s ended with %s:\n%s" % (module, rc, "\n".join(res.tail[-60:])))
        raise Broken("the specification itself fails (%s) in %s:\n%s" % (res.violated, module, "\n".join(res.tail[-60:])))
    return res


# ------------------------------------------------------------------ negative controls
def corrupt(rng, events, mask):
    """A copy of a recording with one compared observation changed."""
    ev = copy.deepcopy(events)
    if "all" in mask:
        mask = set(mask) | {"v", "pv", "err", "warn", "re", "eq"}
    counts = {"heap", "iconv", "streams", "fds", "open"} & set(mask)
    if counts:
        cand = [(e, f) for e in ev for f in counts & set(e)]
        if not cand:
            return None
        e, f = rng.choice(cand)
        e[f] = max(e[f], 0) + rng.choice([1, 2, 8])
        return ev
    fields = {"ent", "ctx", "r", "exc", "np", "pv", "v", "id"}
    fields &= set(mask) | ({"v", "id", "r", "ent", "ctx", "exc", "np", "pv"} if "all" in mask else set()) | ({"r"} if "set" in mask else set())
    cand = []
    for i, e in enumerate(ev):
        for f in fields & set(e):
            if e["op"] in ("spec", "env", "name", "tr", "trp", "trc", "trcp", "fn", "uls", "cv") and f == "r" and e.get("exc", 0) == 0:
                cand.append((i, f))
            elif e["op"] in ("parse", "dump", "get", "cur", "held") and f in ("ent", "ctx") and e.get("exc", 0) == 0:
                cand.append((i, f))
            elif e["op"] in ("get", "cur", "held") and f == "r" and e["r"] and e.get("exc", 0) == 0 and {"r", "all"} & set(mask):
                cand.append((i, f))
            elif e["op"] == "langs" and e.get("exc") == 0 and f == "r" and {"set", "all"} & set(mask):
                cand.append((i, f))
            elif e["op"] == "setfuzzy":
                cand.append((i, "rf"))
        if e["op"] == "parse" and "err" in e:
            cand += [(i, f) for f in ("err", "warn") if f in mask]
        if e["op"] in ("get", "cur") and "places" in e and "places" in mask and e["exc"] == 0:
            cand.append((i, "places"))
        if e["op"] in ("pe", "per") and "v" in mask or e["op"] in ("parse", "get", "dump") and "pv" in mask and e["pv"]:
            cand.append((i, "v" if "v" in e else "pv"))
        if e["op"] == "thr" and "thr" in mask:
            cand.append((i, "thr"))
        if {"fo", "fl"} & set(mask) and e["op"] in ("get", "cur", "tr", "setcs", "setlang", "setfuzzy", "adddir", "rmdir") and e.get("exc", 0) == 0 and "fo" in e:
            cand.append((i, rng.choice(["fo", "fl"])))
        if e["op"] == "share" and "rs" in mask and e["rs"]:
            cand.append((i, rng.choice(["rs", "told", "pvs", "ents"])))
        if e["op"] == "each" and "seen1" in mask:
            cand.append((i, rng.choice(["seen1", "seen2", "ret1", "thrown2"])))
        if e["op"] == "parsek" and "left" in mask and "left" in e:
            cand.append((i, "left"))
        if e["op"] == "peq" and "eq" in mask:
            cand.append((i, "sym"))
        if "re" in mask and any(c["r"].get("exc", 1) == 0 and "ent" in c["r"] for c in e.get("re") or ()):
            cand += [(i, "re")] * 3
        if "infoB" in mask and e["op"] in ("tr", "trp", "trc", "trcp") and "info" in e and e.get("n", 0) >= 0:
            cand.append((i, rng.choice(["info", "lerr"])))
        if e["op"] == "keys" and "nset" in mask:
            cand.append((i, rng.choice(["nset", "nhash", "neq", "bad"])))
        if "log" in e and "sinks" in mask and e["op"] in ("add", "addp", "addc", "addcp", "parse"):
            cand.append((i, "log"))
    if not cand:
        return None
    i, f = rng.choice(cand)
    e = ev[i]
    if f == "rf":
        e["r"] = 1 - e["r"]
        return ev
    if f in ("rs", "told", "pvs", "ents"):
        e[f].append([77])
        return ev
    if f in ("fo", "fl"):
        e[f].append([77, 47, 77])
        return ev
    if f in ("seen1", "seen2"):
        e[f].append(e[f][0] if e[f] else [[7], [[7]]])
        return ev
    if f == "info":
        e[f] = 0 if e[f] else 1
        return ev
    if f == "lerr":
        e["err"] = [] if e["err"] else [-1]
        return ev
    if f in ("ret1", "thrown2", "left", "nset", "nhash", "neq", "bad"):
        e[f] += 1
        return ev
    if f == "sym":
        e[f] = 1 - e[f]
        return ev
    if f == "re":
        r = rng.choice([c for c in e["re"] if c["r"].get("exc", 1) == 0 and "ent" in c["r"]])["r"]
        r["ent"] = r["ent"] + [[[77], [[7]]]]
        return ev
    if f in ("err", "warn"):
        e[f] = e[f] + [99999999] if rng.random() < 0.5 or not e[f] else [n + 1 for n in e[f]] if all(e[f]) else []
        return ev
    if f in ("places", "log"):
        e[f].append([[47], 1, 3] if f == "places" else [rng.choice([1, 2, 3]), [120]])
        return ev
    if f in ("v", "pv"):
        e[f][rng.randrange(len(e[f]))] = 99
        return ev
    if f == "thr":
        r = rng.choice(rng.choice(e["t"]))["r"]
        k = sorted(set(r) & {"def", "exc", "np", "v", "pv", "ent"})
        if not k:
            return None
        k = rng.choice(k)
        r[k] = r[k] + 1 if isinstance(r[k], int) else r[k] + [[[77], [[7]]] if k == "ent" else 77]
        return ev
    if f in ("ent", "ctx"):
        if e[f] and rng.random() < 0.5:
            del e[f][rng.randrange(len(e[f]))]
        else:
            e[f].append([[1, 2, 3], [[4]]] if f == "ent" else [[9], [1, 2, 3], [[4]]])
    elif isinstance(e[f], dict):
        e[f]["def"] = 1 - e[f]["def"]
    elif e["op"] in ("get", "cur", "held"):
        k = rng.randrange(len(e[f]))
        e[f][k] = e[f][k] + [33]
    elif e["op"] in ("uls", "langs"):
        e[f].append([1, 2, 3])
    else:
        e[f] = e[f] + [33] if rng.random() < 0.5 or not e[f] else e[f][:-1]
    return ev


# ------------------------------------------------------------------ a check
class Check:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.states = self.transitions = 0
        self.traces = 0          # sessions of the real code compared with the specification
        self.events = 0          # calls in them
        self.samples = []
        self.models = []
        self.violations = []
        self.notes = {}
        self.rng = random.Random("%s/%s" % (pid, SEED))
        self.lock = threading.RLock()
        self.nbad = 0            # differences seen so far (before the re-run)
        self.controls = [0, 0]   # corrupted recordings: tried, rejected

    # direction A: a model explores, prints behaviours, the code has to show them
    def model(self, module, cfg, mask=("all",), replay=True, exe=None, isolate=False, timeout=10, label=None, extra=(), workers=None):
        """cfg: text.  Behaviours are JSON lists of events with field x."""
        exe = exe or build()
        batch, results = [], []
        n = [0]
        pool = cf.ThreadPoolExecutor(3)
        futs = []

        def flush():
            if self.nbad >= 40:   # enough to report; do not wait for more crashes
                batch.clear()
            if batch:
                futs.append(pool.submit(self._replay, exe, list(batch), mask, isolate, timeout, 3))
                batch.clear()

        def sink(tag, d):
            n[0] += 1
            if n[0] in (1, 50, 700) and len(self.samples) < 12:
                self.samples.append(brief(d))
            if replay:
                batch.append((n[0], d))
                if len(batch) >= 4000:
                    flush()
        r = tlc(module, cfg, sink=sink, extra=extra, workers=workers)
        flush()
        for f in futs:
            self._found(f.result(), exe, mask, isolate, module)
        pool.shutdown()
        with self.lock:
            self.states += r.distinct
            self.transitions += r.states
            self.models.append({"module": module, "label": label or module, "distinct_states": r.distinct, "states_generated": r.states,
                                "behaviours_replayed": n[0] if replay else 0, "wall_s": round(r.wall, 1)})
        log("%s %s: %d distinct states, %d behaviours%s, %.1fs" % (module, label or "", r.distinct, n[0], " replayed" if replay else "", r.wall))
        return r

    def _replay(self, exe, items, mask, isolate, timeout, jobs=NCPU):
        ses = [(i, [line_of(e) for e in d]) for i, d in items]
        got = run_driver(exe, ses, timeout, isolate, jobs)
        bad = []
        stopped = budget(got) >= 30
        for i, d in items:
            want = [(e, e.get("x") or {}) for e in d]
            if i not in got:
                if not stopped:
                    raise Broken("session %s was not run" % i)
                continue
            c = compare(want, got[i], mask)
            if c:
                bad.append((d, c, [] if isolate or len(bad) > 8 else before(ses, i, jobs)))
        with self.lock:
            self.traces += len(got)
            self.events += sum(map(len, got.values()))
            self.nbad += len(bad)
        return bad

    def _found(self, bad, exe, mask, isolate, module):
        for d, c, pre in bad:
            if len(self.violations) >= 5:
                return
            # a rejection counts only if a re-run repeats it: alone, or behind what the process had run before
            want = [(e, e.get("x") or {}) for e in d]
            for p in ([], pre):
                got = run_driver(exe, list(enumerate(p, 1)) + [(0, [line_of(e) for e in d])], 60, not p, 1).get(0, [])
                c2 = compare(want, got, mask)
                if c2 or not pre:
                    break
            if c2:
                self.violation({"kind": "behaviour", "module": module, "before": p, "events": d, "mask": list(mask), "call": c2[0], "fields": c2[1],
                                "expected": {k: c2[2].get(k) for k in c2[1]}, "observed": c2[3] and {k: c2[3].get(k, c2[3].get("r")) for k in c2[1]}})
            else:
                log("a difference did not repeat and is not reported:", c[1])

    # direction B: the code runs, the specification checks the recorded trace
    def conform(self, sessions, mask=("all",), exe=None, isolate=False, timeout=10, label="Conform", workers=None):
        """sessions: list of lists of script lines."""
        exe = exe or build()
        t0 = time.time()
        ses = list(enumerate(sessions, 1))
        got = run_driver(exe, ses, timeout, isolate)
        t1 = time.time()
        if len(got) < len(ses) and budget(got) < 30:
            raise Broken("%d sessions were not run" % (len(ses) - len(got)))
        # negative controls: copies of recordings with one observation changed
        ctl = {}
        for sid in sorted(got)[:40]:
            c = corrupt(self.rng, got[sid], mask)
            if c and len(ctl) < 12:
                ctl[1000000 + sid] = c
        bad, r = self._validate({**got, **ctl}, mask, workers=workers)
        rej = sum(1 for b in bad if b["s"] >= 1000000)
        bad = [b for b in bad if b["s"] < 1000000]
        with self.lock:
            self.controls[0] += len(ctl)
            self.controls[1] += rej
            self.traces += len(got)
            self.events += sum(map(len, got.values()))
            self.nbad += len(bad)
            self.states += r.distinct
            self.transitions += r.states
            self.models.append({"module": "Conform", "label": label, "distinct_states": r.distinct, "states_generated": r.states,
                                "traces_validated": len(got), "events": sum(map(len, got.values())),
                                "corrupted_traces_rejected": "%d of %d" % (rej, len(ctl)), "wall_s": round(r.wall, 1)})
            if len(self.samples) < 14:
                self.samples.append({"session": [l[:200] for l in sessions[0][:6]]})
        log("Conform %s: %d recorded sessions, %d calls, %d rejected (controls: %d of %d); driver %.1fs, TLC %.1fs" %
            (label, len(got), sum(map(len, got.values())), len(bad), rej, len(ctl), t1 - t0, r.wall))
        for b in sorted(bad, key=lambda b: len(sessions[b["s"] - 1])):
            if len(self.violations) >= 5:
                break
            if not self._again(sessions[b["s"] - 1], mask, exe, isolate) and \
               (isolate or not self._again(sessions[b["s"] - 1], mask, exe, False, before(ses, b["s"]))):
                log("a rejection did not repeat and is not reported:", b)

    def _again(self, script, mask, exe, isolate, pre=()):
        """Once more: alone, or behind what the process had run before."""
        again = {1: run_driver(exe, list(enumerate(pre, 2)) + [(1, script)], 60, isolate, 1).get(1, [])}
        bad2, r2 = self._validate(again, mask, explain=True)
        if not bad2:
            return False
        x = [p for t, p in r2.prints if t == b"@E"]
        ev = again[1][bad2[0]["k"] - 1]
        fields = bad2[0]["bad"]
        self.violation({"kind": "session", "before": list(pre), "script": script, "mask": list(mask), "call": bad2[0]["k"],
                        "fields": fields, "expected": {k: x[0]["x"].get(k) for k in fields} if x else None,
                        "observed": {k: ev.get(k, ev.get("r")) for k in fields} if ev["op"] != "crash" else ev})
        return True

    def _validate(self, got, mask, explain=False, workers=None):
        tf = tempfile.NamedTemporaryFile("w", suffix=".ndjson", dir=SCRATCH, delete=False)
        for s in sorted(got):
            tf.write(json.dumps({"s": s, "ops": got[s]}, separators=(",", ":")) + "\n")
        tf.close()
        mf = os.path.join(SCRATCH, "mask-%d.json" % random.getrandbits(60))
        open(mf, "w").write(json.dumps(list(mask)))
        cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Report\n" + ("INVARIANT Explain\n" if explain else "")
        r = tlc("Conform", cfg, env={"TRACE_FILE": tf.name, "MASK_FILE": mf}, workers=workers)
        os.unlink(tf.name)
        bad = [p for t, p in r.prints if t == b"@@"]
        # every recorded call has been consumed, or its session was rejected earlier
        need = len(got)
        stop = {b["s"]: b["k"] for b in bad}
        for s in got:
            need += stop.get(s, len(got[s]))
        if r.distinct != need:
            raise Broken("the trace check consumed %d of %d states" % (r.distinct, need))
        return bad, r

    def violation(self, v):
        v["property"] = self.pid
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        with self.lock:
            p = os.path.join(d, "%s-%d.json" % (self.pid, len(self.violations) + 1))
            json.dump(v, open(p, "w"))
            self.violations.append(p)
        log("rejected: call %s fields %s expected %s observed %s" %
            (v.get("call"), v.get("fields"), json.dumps(show(v.get("expected")))[:600], json.dumps(show(v.get("observed")))[:600]))
        print("VIOLATION property=%s replay=%s" % (self.pid, p), flush=True)

    def finish(self, assumptions=(), **notes):
        ev = {"property": self.pid, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": "model_checking",
              "coverage": dict({"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
                                "calls_observed": self.events, "models": self.models, "samples": self.samples,
                                "corrupted_traces_rejected": "%d of %d" % (self.controls[1], self.controls[0])}, **dict(self.notes, **notes)),
              "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)
        log("%s %s: %d states, %d traces against the implementation, %.1fs" %
            (self.pid, "VIOLATED" if self.violations else "held", self.states, self.traces, time.time() - self.t0))
        return 1 if self.violations else 0


def show(v):
    """Byte texts as text, for people."""
    if isinstance(v, list) and v and all(isinstance(x, int) and 0 <= x < 256 for x in v) and len(v) > 1:
        return bytes(v).decode("latin1")
    if isinstance(v, list):
        return [show(x) for x in v]
    if isinstance(v, dict):
        return {k: show(x) for k, x in v.items()}
    return v


def brief(d):
    s = json.dumps(show(d))
    return json.loads(s) if len(s) < 1500 else s[:1500]
