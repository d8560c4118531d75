"""The driver of the checks.  usage: check.py <property id> [quick|thorough]   See DESIGN.md."""
import glob, json, os, re, shutil, subprocess, sys, threading, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vc
from vc import VERIF, REPO, BUILD, Undecided
from props import PROPS

SKIP_CALL = {"if", "while", "match", "for", "return", "forall", "exists", "assert", "assume", "fn"}


# --------------------------------------------------------------------------------------------
# the parts of the assembled file


class Part:
    def __init__(self, name, kind, start, end, text):
        self.name, self.kind, self.start, self.end, self.text = name, kind, start, end, text


ITEM = re.compile(r"(?m)^[ \t]*(?:#\[verifier::(?:spinoff_prover|external_body)\] )*(?:/\*@FN (?P<fn>[^*]+)\*/ |(?:pub )?(?:broadcast )?(?P<kind>proof|open spec|closed spec|spec) fn (?P<name>\w+)|(?:pub )?fn (?P<shim>\w+))")


def parts(text):
    ms = list(ITEM.finditer(text))
    out = []
    fn_end = 0
    for k, m in enumerate(ms):
        if m.start() < fn_end:
            continue  # a nested function
        if m.group("fn"):
            e = text.find("/*@END*/", m.start())
            fn_end = e
            out.append(Part(m.group("fn"), "exec", m.start(), e, text[m.start():e]))
        else:
            e = ms[k + 1].start() if k + 1 < len(ms) else len(text)
            out.append(Part(m.group("name") or m.group("shim"), "shim" if m.group("shim") else m.group("kind").split()[-1], m.start(), e, text[m.start():e]))
    return out


def cone(ps, roots, shallow=()):
    """the functions and lemmas that the roots depend on (by name; an over-approximation); what the
    shallow ones call is left to its contract"""
    by_last, by_id = {}, {}
    for p in ps:
        by_id.setdefault(p.name, []).append(p)
        last = p.name.split("@")[0].split("::")[-1]
        by_last.setdefault(last, []).append(p)
        if "@" in p.name:  # From impls, under the name they are extracted with
            by_last.setdefault("from", []).append(p)
    seen = set()
    todo = []
    for r in roots:
        if r in by_id:
            todo += by_id[r]
    for n in by_id:
        if n.endswith("::eq@"):
            todo += by_id[n]
    while todo:
        p = todo.pop()
        if id(p) in seen:
            continue
        seen.add(id(p))
        for m in re.finditer(r"\bvia (\w+)", p.text):  # the proof of a definition's termination
            todo += by_id.get(m.group(1), [])
        for m in re.finditer(r"(?:(\w+)(?:::<[^>]*>)?::)?(\w+)(?:::<[^()]*?>)?\s*\(", p.text):
            q, n = m.group(1), m.group(2)
            if n in SKIP_CALL or p.text[:m.start()].endswith("fn "):
                continue
            if q and q + "::" + n in by_id:
                todo += by_id[q + "::" + n]
            elif q and q[0].isupper() and q != "Self" and n in by_last:
                todo += [x for x in by_last[n] if x.name.startswith(q) or x.kind != "exec"]
            elif n in by_last:
                c = by_last[n]
                if p.text[m.start() - 1:m.start()] == ".":
                    c = [x for x in c if x.kind == "exec" or x.kind == "spec" or x.kind == "shim"]
                todo += c
    for r in shallow:
        for p in by_id.get(r, []):
            if id(p) not in seen:
                seen.add(id(p))
    return [p for p in ps if id(p) in seen]


# --------------------------------------------------------------------------------------------
# the verifier


class Proof:
    """the outcome for one property"""

    def __init__(self):
        self.failed = []       # (function, message, source line)
        self.undecided = []    # (function, reason)
        self.functions = []
        self.lemmas = []
        self.discharged = 0
        self.obligations = 0
        self.smt_ms = 0
        self.wall = 0.0
        self.trusted = []
        self.output = ""
        self.drops = []
        self.cmd = ""
        self.skipped = None
        self.retried = {}      # function -> the random seed that proves it


def spin(text):
    text = re.sub(r"(?m)^(\s*)((?:pub )?proof fn )", r"\1#[verifier::spinoff_prover] \2", text)
    return re.sub(r"(/\*@FN [^*]+\*/ )", r"\1#[verifier::spinoff_prover] ", text)


def loc(err, fmap):
    """(function or lemma, source text) of an error"""
    spans = err.get("spans", [])
    best = [s for s in spans if s.get("is_primary")] or spans
    best = [s for s in best if "failed precondition" not in (s.get("label") or "")] or best
    for s in best:
        ln = s["line_start"] - 1
        if 0 <= ln < len(fmap) and fmap[ln]:
            t = " ".join(x["text"].strip() for x in s.get("text", [])[:2])
            return fmap[ln], t[:300]
    return None, ""


def line_map(text, ps):
    n = text.count("\n") + 1
    res = [None] * (n + 1)
    for p in ps:
        a = text.count("\n", 0, p.start)
        b = text.count("\n", 0, p.end)
        for k in range(a, b + 1):
            res[k] = p.name if p.kind in ("exec", "shim") else "lemma:" + p.name
    return res


def prove(pid, tier, out_dir, found=lambda: False):
    pr = Proof()
    t0 = time.time()
    spec = PROPS[pid]
    ex = os.path.join(out_dir, "extracted.rs")
    log = vc.extract(ex, pid)
    pr.drops = [l for l in log if l.startswith(("DROP", "NOTE"))]
    fns = [l.split()[1] for l in log if l.startswith("FN ")]
    for l in log:
        if l.startswith("ERROR"):
            pr.undecided.append(("extraction", l))
        if l.startswith("SERDE"):
            pr.undecided.append(("extraction", "the derived readers and writers: " + l[6:]))
        if l.startswith("CUSTOM"):
            pr.undecided.append(("extraction", "a derived trait is taken to be structural, and is not derived as it is: " + l))
    cs = vc.parse_contracts(vc.contract_files(), pid)
    # `==` and `clone` written by hand have to be the structural ones
    vc.by_hand(cs, fns)
    helpers = [f for f in fns if f not in cs]
    external = set(helpers)
    own = "\n".join(open(f).read() for f in glob.glob(os.path.join(VERIF, "contracts", "*.rs")))
    missing = [r for r in spec["roots"] if r not in fns and not re.search(r"(?m)^pub (?:proof )?fn %s\(" % re.escape(r), own)]
    for r in missing:
        pr.undecided.append((r, "the function is gone"))
    rounds = 0
    while True:
        rounds += 1
        text, info, trusted = vc.assemble(ex, cs, external, pid=pid)
        ps = parts(text)
        cn = cone(ps, spec["roots"], spec.get("shallow", ()))
        names = set(p.name for p in cn)
        for f, v in info.items():
            bad = [x for x in v if x != "no contract"]
            if bad and f in names and f not in external:
                # the proof text does not fit the function: it cannot be tried
                external.add(f)
                pr.undecided.append((f, "; ".join(bad)))
                text = None
        if text is None:
            continue
        # what is assumed: statements without proof, and functions with a contract only
        pr.assumed = sorted(set(p.name for p in cn if p.kind != "exec" and "external_body" in text[max(0, text.rfind("\n", 0, max(0, p.start - 1)) + 1):p.start + 1]))
        # leave out what the property does not depend on
        keep = set(id(p) for p in cn)
        off = set(external)
        lemmas_off = []
        for p in ps:
            if id(p) in keep:
                continue
            if p.kind == "exec":
                off.add(p.name)
            elif p.kind == "proof" and not re.search(r"#\[via_fn\]\s*$", text[max(0, p.start - 80):p.start]):
                lemmas_off.append(p.name)
        text, info, trusted = vc.assemble(ex, cs, off, pid=pid)
        for n in lemmas_off:
            text = re.sub(r"(?m)^(\s*)((?:pub )?(?:broadcast )?proof fn %s\b)" % n, r"\1#[verifier::external_body] \2", text)
        text = spin(text)
        f = os.path.join(out_dir, "all.rs")
        open(f, "w").write(text)
        ps2 = parts(text)
        fmap = line_map(text, ps2)
        rc, out, errs, wall, raw = vc.run_verus(f, timeout=spec.get("timeout", 400) * (2 if tier == "thorough" else 1))
        res = out.get("verification-results", {})
        errors = [e for e in errs if e.get("level") == "error" and not e["message"].startswith("aborting")]
        pr.output = raw[-60000:]
        pr.cmd = "verus --num-threads 8 " + f
        done = "verified" in res and not res.get("encountered-vir-error", False)
        if done and (res.get("verified", 0) == 0 or (res.get("encountered-error") and not errors)):
            done = False
            if not [e for e in errors if loc(e, fmap)[0]]:
                pr.undecided.append(("verifier", "ended without an answer: " + raw[:500]))
                break
        if not done:
            # the file is not in the language of the verifier: take the offending functions out
            new = set()
            for e in errors:
                w, src = loc(e, fmap)
                if w and not w.startswith("lemma:") and w in fns and w not in off:
                    new.add(w)
                    pr.undecided.append((w, "not accepted by the verifier: %s `%s`" % (e["message"][:200], src)))
            if not new or rounds > 8:
                msg = "; ".join(e["message"][:200] for e in errors[:3]) or raw[-500:]
                pr.undecided.append(("file", "not accepted by the verifier: " + msg))
                break
            external |= new
            continue
        break
    pr.wall = time.time() - t0
    pr.trusted = trusted
    pr.functions = sorted(p.name for p in cn if p.kind == "exec" and p.name in cs and p.name not in external)
    pr.lemmas = sorted(p.name for p in cn if p.kind == "proof" and "external_body" not in text[max(0, text.find("proof fn %s" % p.name) - 60):text.find("proof fn %s" % p.name)])
    und = set(w for w, _ in pr.undecided)
    used_helpers = [h for h in helpers if h in names]
    pr.uncontracted = used_helpers
    for h in used_helpers:
        if h not in spec.get("known_helpers", ()):
            pr.undecided.append((h, "no contract"))
    if done:
        pr.discharged = res.get("verified", 0)
        pr.obligations = res.get("verified", 0) + res.get("errors", 0)
        ts = out.get("times-ms", {}).get("smt", {})
        pr.smt_ms = ts.get("smt-run", 0) if isinstance(ts, dict) else 0
        helper_names = set(h.split("::")[-1] for h in used_helpers)
        # with a failing input there is nothing to retry
        pr.retried = again(f, [loc(e, fmap)[0] for e in errors], ps2) if errors and not found() else {}
        pr.discharged += len(pr.retried)
        for e in errors:
            w, src = loc(e, fmap)
            w = w or "?"
            if w in pr.retried:
                continue
            if re.search(r"rlimit|resource limit|timed out", e["message"], re.I):
                pr.undecided.append((w, "the solver gave up: " + e["message"][:200]))
                continue
            body = "".join(p.text for p in ps2 if p.name == w)
            if [h for h in helper_names if re.search(r"\b%s\s*\(" % re.escape(h), body)]:
                pr.undecided.append((w, "depends on a function without a contract: %s `%s`" % (e["message"][:200], src)))
                continue
            if (w.startswith("lemma:") or w == "?") and not re.match(spec.get("deciding_lemmas", "$^"), w):
                pr.undecided.append((w, "a lemma fails: %s `%s`" % (e["message"][:200], src)))
                continue
            pr.failed.append((w, e["message"], src))
    return pr


def again(f, names, ps, budget=240):
    """the functions that the solver accepts from another random seed (a proof is a proof)"""
    res = {}
    names = sorted(set(n for n in names if n))
    t0 = time.time()
    for n in names[:4]:
        last = n.split("lemma:")[-1]
        m = re.search(r"\bfn (\w+)", "".join(p.text for p in ps if p.name == last))
        if not m:
            continue
        for seed in (1, 2, 3):
            if time.time() - t0 > budget:
                break
            try:
                _, out, errs, _, _ = vc.run_verus(f, ["--verify-root", "--verify-function", "*" + m.group(1), "--smt-option", "smt.random_seed=%d" % seed, "--smt-option", "sat.random_seed=%d" % seed], timeout=120)
            except Undecided:
                break
            r = out.get("verification-results", {})
            if r.get("verified", 0) > 0 and r.get("errors", 1) == 0 and not r.get("encountered-error") and not r.get("encountered-vir-error"):
                res[n] = seed
                break
    return res


# --------------------------------------------------------------------------------------------
# the executable counterpart: replays and bounded stand-in


def harness_build():
    d = os.path.join(VERIF, "harness")
    if REPO != "/repo":
        d2 = os.path.join(BUILD, "harness-src")
        shutil.rmtree(d2, ignore_errors=True)
        shutil.copytree(d, d2, ignore=shutil.ignore_patterns("target"))
        p = os.path.join(d2, "Cargo.toml")
        s = open(p).read().replace('"/repo"', '"%s"' % REPO)
        open(p, "w").write(s)
        d = d2
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    t = os.path.join(BUILD, "harness")
    r = vc.sh(["cargo", "build", "--offline", "--locked", "--quiet", "--manifest-path", d + "/Cargo.toml", "--target-dir", t], env=env)
    if r.returncode != 0:
        return None, r.stderr[-3000:]
    return t + "/debug/harness", ""


def harness_run(pid, seed, tier, out_dir):
    exe, err = harness_build()
    if exe is None:
        return {"error": "does not build: " + err}
    o = os.path.join(out_dir, "harness.json")
    if os.path.exists(o):
        os.remove(o)
    budget = 45 if tier == "quick" else 400
    try:
        r = vc.sh([exe, pid, str(seed), tier, o, str(budget)], timeout=budget * 2 + 60)
    except subprocess.TimeoutExpired:
        return {"error": "ran out of time"}
    if not os.path.exists(o):
        return {"error": "ended with %d: %s" % (r.returncode, r.stderr[-1000:])}
    return json.load(open(o))


def known_findings(pid):
    p = os.path.join(VERIF, "known-findings.txt")
    res = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) match=/(.*?)/ (.*)", l)
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3).strip()))
    return res


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    out_dir = os.path.join(BUILD, "run", pid)
    os.makedirs(out_dir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    spec = PROPS[pid]

    hres = {}

    def hj():
        try:
            hres.update(harness_run(pid, seed, tier, out_dir))
        except Exception as e:  # noqa
            hres["error"] = repr(e)

    th = threading.Thread(target=hj)
    th.start()
    pr = Proof()
    if spec.get("roots"):
        try:
            def found():
                th.join()
                return bool(hres.get("violation"))

            pr = prove(pid, tier, out_dir, found)
        except Undecided as e:
            pr.undecided.append(("file", str(e)))
        except Exception as e:  # noqa
            pr.undecided.append(("driver", repr(e)))
    th.join()
    guards = "the thorough tier only"
    if tier == "thorough" and pr.obligations and not pr.failed and not hres.get("violation"):
        import vacuity
        try:
            guards = vacuity.run(os.path.join(out_dir, "all.rs"))
            for k, g in guards.items():
                for n in g["proved_false"]:
                    pr.undecided.append((n, "vacuous: what is known there (%s) is contradictory or the place is not reachable" % k))
        except Exception as e:  # noqa
            guards = "not run: " + repr(e)[:300]

    viol = None
    v = hres.get("violation")
    finding = None
    if v:
        for pat, what in known_findings(pid):
            if re.search(pat, v["error"] + " " + v["text"]):
                finding = what
                v = None
                break
    replay = os.path.join(BUILD, "run", pid, "replay.json")
    if v or pr.failed:
        d = {"property": pid, "failed_obligations": [{"function": a, "message": b, "source": c} for a, b, c in pr.failed],
             "undecided": pr.undecided, "verifier_command": pr.cmd, "verifier_output": pr.output[-20000:] if pr.failed else ""}
        if v:
            d["failing_input"] = v["text"]
            d["observed"] = v["error"]
            cf = os.path.join(out_dir, "case.json")
            json.dump(v["case"], open(cf, "w"))
            d["case"] = v["case"]
            d["run"] = "%s replay %s %s" % (os.path.join(BUILD, "harness/debug/harness"), pid, cf)
        json.dump(d, open(replay, "w"), indent=1)

    for f, m, s in pr.failed:
        print("failed obligation in %s: %s `%s`" % (f, m, s))
    for f, m in pr.undecided:
        print("undecided: %s: %s" % (f, m))
    if hres.get("error"):
        print("bounded check: " + hres["error"])
    if finding:
        print("KNOWN-FINDING: property=%s %s" % (pid, finding))
    code = 0
    if v:
        print("failing input: %s" % v["text"])
        print("observed: %s" % v["error"])
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        code = 1
    elif pr.failed:
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, replay))
        code = 1
    elif hres.get("error") and (pr.undecided or not spec.get("roots")):
        print("no answer: neither the verifier nor the bounded check could decide")
        code = 2

    bounded = {k: hres.get(k) for k in ("evaluations", "exercised", "random", "small_rule", "small_groups", "small_complete", "wall_s")}
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": pr.obligations, "discharged": pr.discharged,
            "checker_cmd": pr.cmd or "none",
            "trusted_base": spec.get("trusted", []) + TRUSTED + ["derived code: " + x for x in pr.trusted],
            "backend": "Verus (Z3)", "solver_ms": pr.smt_ms, "verifier_wall_s": round(pr.wall, 1),
            "functions_under_contract": pr.functions, "lemmas": len(pr.lemmas),
            "functions_without_contract": getattr(pr, "uncontracted", []),
            "proved_with_another_random_seed": getattr(pr, "retried", {}),
            "vacuity_guards": guards,
            "assumed_contracts": getattr(pr, "assumed", []),
            "undecided": ["%s: %s" % x for x in pr.undecided],
            "failed_obligations": ["%s: %s `%s`" % x for x in pr.failed],
            "extraction_drops": pr.drops[:200],
            "bounded_stand_in": spec.get("bounded", "none for this property; the bounded search below only looks for failing inputs"),
            "bounded_search": bounded,
            "samples": hres.get("samples", []),
            "not_proved": spec.get("not_proved", "nothing"),
        },
        "assumptions": ASSUMPTIONS + spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": 1 if code == 1 else 0,
    }
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s: %d of %d obligations discharged in %d functions and %d lemmas (%.1f s); bounded search %s cases; %.1f s" % (
        pid, "ok" if code == 0 else "-", pr.discharged, pr.obligations, len(pr.functions), len(pr.lemmas), pr.wall, hres.get("evaluations"), time.time() - t0))
    sys.exit(code)


TRUSTED = [
    "Verus 0.2026.09.13 with Z3, and vstd's specifications of the standard library",
    "the extractor (extractor/src/main.rs): monomorphises the generic code for the MD schema and rewrites it to Verus' subset of Rust; what it drops is listed in extraction_drops",
    "contracts/00_prelude.rs: assumed contracts of std functions (char::len_utf16, str::len/split_at, String::with_capacity, Chars::as_str, slice::contains, binary_search_by_key on marks, Cow::into_owned/deref, constant promotion)",
    "axiom_fits, axiom_node_fits, axiom_str_fits: a document in memory has fewer than isize::MAX - 2 positions",
]
ASSUMPTIONS = [
    "inputs satisfy the representation invariant of the library: cached sizes are exact, texts are not empty, marks are sorted sets; every verified function that builds a document re-establishes it",
    "the derived Clone/PartialEq of the data types are structural",
    "64-bit usize",
]

if __name__ == "__main__":
    main()
