"""Vacuity guards: with `assert(false)` at the entry of a function, in a loop body, behind a loop or at the end of the
body, the verifier has to fail.  Where it does not, the preconditions, invariants, callee contracts or axioms in scope
contradict each other and the proof says nothing.
usage: vacuity.py <all.rs of a check>"""
import json, re, sys
import vc

# loops that are left by `return` only
UNREACHABLE = {"Fragment::find_index loop 1"}
PROBE = "proof { assert(false); /*@PROBE %s*/ }"


def bodies(text):
    """(id, start of the body, end of the body) of the functions that are verified"""
    for m in re.finditer(r"/\*@FN ([^*]+)\*/", text):
        b = text.find("/*@BODY*/", m.end())
        e = text.find("/*@END*/", m.end())
        if "external_body" in text[m.end():b] or text[b + 9:e].strip() == "unimplemented!()":
            continue
        yield m.group(1), b + 9, e


def lemmas(text):
    for m in re.finditer(r"(?m)^( *)((?:#\[[^\]]*\] *)*)(?:pub )?proof fn (\w+)", text):
        if "external_body" in m.group(2) or "external_body" in text[text.rfind("\n", 0, max(0, m.start() - 1)) + 1:m.start()]:
            continue
        e = text.find("\n", m.end())
        line = text[m.end():e].rstrip()
        if line.endswith("}"):
            d = 0
            for k in range(len(line) - 1, -1, -1):
                d += {"}": 1, "{": -1}.get(line[k], 0)
                if d == 0:
                    break
            yield "lemma:" + m.group(3), m.end() + k + 1
            continue
        nx = re.compile(r"(?m)^ *(?:#\[[^\]]*\] *)*(?:pub )?(?:(?:proof|exec|open spec|closed spec|spec) )?(?:fn|struct|impl|trait) ").search(text, m.end())
        lim = nx.start() if nx else len(text)
        o = re.compile(r"(?m)^%s\{" % m.group(1)).search(text, m.end(), lim) or re.compile(r"(?m)(?<=[ )])\{\s*$").search(text, m.end(), lim)
        if o:
            yield "lemma:" + m.group(3), o.end() if text[o.end() - 1] == "{" else o.start() + 1


def past_hides(text, o):
    while True:
        m = re.compile(r"\s*(?:(?:hide\(\w+\)|broadcast use [^;]*);|//[^\n]*\n)").match(text, o)
        if m:
            o = m.end()
            continue
        m = re.compile(r"\s*assert\(true\) by (?=\{)").match(text, o)
        if not m:
            return o
        o = vc.match_close(text, m.end(), "{", "}") + 1


def probes(text, kind):
    kind, _, nth = kind.partition(":")
    nth = int(nth or 0)
    """[(name, offset, text)]"""
    res = []
    for fid, b, e in bodies(text):
        if kind == "entry":
            res.append((fid, past_hides(text, b), "\n" + PROBE % fid + "\n"))
        elif kind == "exit":
            res.append((fid, past_hides(text, b), "\nlet vac_r = {\n"))
            res.append((fid, e, "\n};\n" + PROBE % fid + "\nvac_r\n"))
        else:
            for m in re.compile(r"\{/\*@LOOP (\d+)\*/").finditer(text, b, e):
                n = "%s loop %s" % (fid, m.group(1))
                if nth and int(m.group(1)) != nth:
                    continue
                if kind == "body":
                    res.append((n, m.end(), "\n" + PROBE % n + "\n"))
                else:
                    c = vc.match_close(text, m.start(), "{", "}")
                    # a loop that is the tail expression or that never ends by itself has nothing behind it
                    res.append((n, c + 1, "\n" + PROBE % n + "\n"))
    if kind == "entry":
        for n, o in lemmas(text):
            res.append((n, past_hides(text, o), " assert(false); /*@PROBE %s*/ " % n))
    return res


def run(path, kinds=("entry", "exit", "body", "after"), timeout=400):
    text = open(path).read()
    out = {}
    # behind a probe everything is proved: one loop of each function at a time
    n = max([int(x) for x in re.findall(r"/\*@LOOP (\d+)\*/", text)] or [0])
    kinds = [x for k in kinds for x in (["%s:%d" % (k, i + 1) for i in range(n)] if k in ("after", "body") else [k])]
    for k in kinds:
        ps = probes(text, k)
        skip = set()
        for _ in range(4):
            t = text
            for n, o, x in sorted(ps, key=lambda p: -p[1]):
                if n not in skip:
                    t = t[:o] + x + t[o:]
            f = path[:-3] + "_" + k.replace(":", "") + ".rs"
            open(f, "w").write(t)
            rc, res, errs, wall, raw = vc.run_verus(f, timeout=timeout, errors=20)
            vr = res.get("verification-results", {})
            if vr.get("verified", 0) + vr.get("errors", 0) > 0 or not ps:
                break
            # a probe that the language does not allow there
            lines = t.split("\n")
            new = set()
            for e in errs:
                if e.get("level") != "error":
                    continue
                for s in [s for s in e.get("spans", []) if s.get("is_primary")]:
                    for l in range(s["line_start"] - 1, 0, -1):
                        m = re.search(r"@FN ([^*]+)\*/|proof fn (\w+)", lines[l])
                        if m:
                            new |= set(n for n, _, _ in ps if n.split(" loop ")[0] == (m.group(1) or "lemma:" + m.group(2)))
                            break
            if not new - skip:
                raise vc.Undecided("probes not accepted: " + raw[:800])
            skip |= new
            print(k, "not possible:", sorted(new)[:5], [e["message"][:300] for e in errs if e.get("level") == "error"][:2], file=sys.stderr)
        names = sorted(set(n for n, _, _ in ps) - skip - (UNREACHABLE if k.startswith("after") else set()))
        lines = t.split("\n")
        hit = set()
        for e in errs:
            for s in e.get("spans", []):
                for l in range(s["line_start"] - 1, min(len(lines), s["line_end"])):
                    m = re.search(r"@PROBE (.*?)\*/", lines[l])
                    if m:
                        hit.add(m.group(1))
        gave_up = []
        for e in errs:
            if re.search(r"rlimit|resource limit", e.get("message", ""), re.I):
                gave_up.append(e["message"])
        out[k] = {"probes": len(names), "failed_as_they_must": len(hit & set(names)), "proved_false": [n for n in names if n not in hit], "not_possible": sorted(skip), "solver_gave_up": len(gave_up), "wall_s": round(wall, 1)}
    return out


if __name__ == "__main__":
    print(json.dumps(run(sys.argv[1], sys.argv[2].split(",")) if len(sys.argv) > 2 else run(sys.argv[1]), indent=1))
