"""Extraction, splicing of contracts, Verus runs.  See DESIGN.md."""
import json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))


class Undecided(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def build_extractor():
    d = os.path.join(VERIF, "extractor")
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    r = sh(["cargo", "build", "--offline", "--quiet", "--manifest-path", d + "/Cargo.toml",
            "--target-dir", os.path.join(BUILD, "extractor")], env=env)
    exe = os.path.join(BUILD, "extractor/debug/extractor")
    if r.returncode != 0:
        raise RuntimeError("extractor does not build:\n" + r.stderr)
    return exe


def extract(out, pid=None):
    """`pid`: for one property; contracts/skip.txt lists functions that are left out, `id unless C13` for all but some"""
    exe = build_extractor()
    known = out + ".known"
    with open(known, "w") as f:
        for l in sorted(parse_contracts(contract_files(), pid)):
            f.write(l + "\n")
    skip = out + ".skip"
    with open(skip, "w") as f:
        for l in open(os.path.join(VERIF, "contracts/skip.txt")):
            m = re.match(r"(.*) unless ([\w,]+)\s*$", l)
            if m and (pid is None or pid in m.group(2).split(",")):
                continue
            f.write((m.group(1) + "\n") if m else l)
    env = dict(os.environ)
    env.pop("VC_SERDE", None)
    env.pop("VC_MD", None)
    env.pop("VC_SETS", None)
    if pid == "C08":
        env["VC_SETS"] = "1"
    if pid == "C14":
        env["VC_SERDE"] = out + ".serde"
    if pid in (None, "C15"):
        env["VC_MD"] = "1"
    r = sh([exe, os.path.join(REPO, "src"), skip, known], env=env)
    if r.returncode != 0:
        raise Undecided("extraction failed: " + r.stderr[-2000:])
    with open(out, "w") as f:
        f.write(r.stdout)
    log = r.stderr.splitlines()
    r = sh(["rustfmt", "--edition", "2021", "--config", "max_width=220", out])
    if r.returncode != 0:
        raise Undecided("extracted code does not parse: " + r.stderr[-2000:])
    return log


# --------------------------------------------------------------------------------------------
# contracts


class Contract:
    def __init__(self, fid):
        self.fid = fid
        self.ret = "ret"
        self.attrs = []
        self.spec = ""
        self.loops = {}
        self.closures = {}
        self.hints = []  # (kind, regex, nth, text)
        self.subst = []
        self.props = []


def only(text, pid):
    """the lines for one property (for all, without one): `@C05,C16: line`, `@!C17: line`, and blocks `//@ONLY C16` ... `//@END`"""
    out = []
    on = True
    for line in text.split("\n"):
        m = re.match(r"\s*//@(ONLY (!?)([\w,]+)|END)\s*$", line)
        if m:
            on = m.group(1) == "END" or ((pid is None or pid in m.group(3).split(",")) != bool(m.group(2)))
            line = ""
        m = re.match(r"(\s*)@(!?)([\w,]+): (.*)$", line)
        if m:
            line = m.group(1) + m.group(4) if (pid is None or pid in m.group(3).split(",")) != bool(m.group(2)) else ""
        out.append(line if on else "")
    return "\n".join(out)


def parse_contracts(paths, pid=None):
    cs = {}
    for p in paths:
        cur = None
        sect = None
        for ln, line in enumerate(only(open(p).read(), pid).split("\n"), 1):
            line = line.rstrip("\n")
            m = re.match(r"^== fn (\S+)(?: -> (\w+))?\s*$", line)
            if m:
                cur = Contract(m.group(1))
                if m.group(2):
                    cur.ret = m.group(2)
                if cur.fid in cs:
                    raise RuntimeError("%s:%d duplicate contract %s" % (p, ln, cur.fid))
                cs[cur.fid] = cur
                sect = ("spec",)
                continue
            if cur is None:
                if line.strip() and not line.startswith("#"):
                    raise RuntimeError("%s:%d: text outside a contract" % (p, ln))
                continue
            m = re.match(r"^-- (\w+)\s*(.*)$", line)
            if m:
                k, rest = m.group(1), m.group(2)
                if k == "loop":
                    n = int(rest)
                    cur.loops[n] = ""
                    sect = ("loop", n)
                elif k == "closure":
                    mm = re.match(r"(\d+)\s+(.*)$", rest)
                    n = int(mm.group(1))
                    cur.closures[n] = [mm.group(2), ""]
                    sect = ("closure", n)
                elif k == "attr":
                    cur.attrs.append(rest)
                    sect = ("spec",)
                elif k == "props":
                    cur.props += rest.split()
                    sect = ("spec",)
                elif k in ("start", "end"):
                    cur.hints.append([k, None, 1, ""])
                    sect = ("hint",)
                elif k in ("before", "after"):
                    mm = re.match(r"/(.*)/\s*(\d*)$", rest)
                    if not mm:
                        raise RuntimeError("%s:%d bad anchor" % (p, ln))
                    cur.hints.append([k, mm.group(1), int(mm.group(2) or 1), ""])
                    sect = ("hint",)
                elif k in ("loopstart", "loopend", "afterloop", "beforeloop"):
                    cur.hints.append([k, int(rest), 1, ""])
                    sect = ("hint",)
                elif k == "subst":
                    mm = re.match(r"/(.*)/ => (.*)$", rest)
                    cur.subst.append((mm.group(1), mm.group(2)))
                    sect = ("spec",)
                else:
                    raise RuntimeError("%s:%d unknown section %s" % (p, ln, k))
                continue
            if line.startswith("#!"):
                continue
            t = line + "\n"
            if sect[0] == "spec":
                cur.spec += t
            elif sect[0] == "loop":
                cur.loops[sect[1]] += t
            elif sect[0] == "closure":
                cur.closures[sect[1]][1] += t
            elif sect[0] == "hint":
                cur.hints[-1][3] += t
    return cs


def match_close(s, i, op, cl):
    """index of the bracket closing the one at s[i]"""
    d = 0
    while i < len(s):
        c = s[i]
        if c == op:
            d += 1
        elif c == cl:
            if cl == ">" and s[i - 1] == "-":
                pass
            else:
                d -= 1
                if d == 0:
                    return i
        i += 1
    raise ValueError("unbalanced")


def split_top(s, sep=","):
    out, d, cur = [], 0, ""
    for i, c in enumerate(s):
        if c in "([{<":
            d += 1
        elif c in ")]}" or (c == ">" and s[i - 1] not in "-="):
            d -= 1
        if c == sep and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur)
    return out


def expand_derives(text):
    """vc_derive!, vc_rank!, vc_from! -> Verus items; returns (text, trusted)"""
    trusted = []
    attrs = {}

    def derive(m):
        name, ps, tg, clike, ds = ([x.strip() for x in split_top(m.group(1))] + [''])[:5]
        ps, tg = ps[1:-1].strip(), tg[1:-1].strip()
        clike = clike == "true"
        ds = set(ds.split())
        out = ""
        lts = "'" in ps
        if "Copy" in ds:
            attrs[name] = "#[derive(Clone, Copy, PartialEq, Eq, Structural)]" if clike and "PartialEq" in ds else "#[derive(Clone, Copy)]"
            if clike:
                trusted.append("derived PartialEq/Clone of %s is structural" % name)
                return out
        g = ps
        if "Clone" in ds and "Copy" not in ds:
            gg = ", ".join(x.strip() if x.strip().startswith("'") else x.strip() + ": Clone" for x in split_top(ps)) if ps else ""
            out += "impl%s Clone for %s%s { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }\n" % (
                "<%s>" % gg if gg else "", name, tg)
            trusted.append("derived Clone of %s returns an equal value" % name)
        if "PartialEq" in ds and not lts and not ps:
            out += ("impl PartialEq for %s { #[verifier::external_body] fn eq(&self, other: &Self) -> (r: bool) { unimplemented!() } }\n"
                    "impl PartialEqSpecImpl for %s { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other } }\n" % (name, name))
            trusted.append("derived PartialEq of %s is structural equality" % name)
        return out

    def rank(m):
        parts = [x.strip() for x in split_top(m.group(1))]
        return "impl %s { pub open spec fn rank(self) -> int { match self { %s } } }\n" % (parts[0], ", ".join(parts[1:]))

    def frm(m):
        e, v, t = [x.strip() for x in split_top(m.group(1))]
        return ("impl FromSpecImpl<%s> for %s { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: %s) -> Self { %s::%s(e) } }\n"
                "impl From<%s> for %s { fn from(e: %s) -> (r: Self) { %s::%s(e) } }\n" % (t, e, t, e, v, t, e, t, e, v))

    text = re.sub(r"vc_derive! \{(.*?)\}\n", derive, text, flags=re.S)
    text = re.sub(r"vc_rank! \{(.*?)\}\n", rank, text, flags=re.S)
    text = re.sub(r"vc_from! \{(.*?)\}\n", frm, text, flags=re.S)
    for n, a in attrs.items():
        text = re.sub(r"(?m)^pub (struct|enum) %s\b" % n, lambda m: a + "\npub %s %s" % (m.group(1), n), text)
    return text, trusted


FN_RE = re.compile(r'^(?P<ind>\s*)vc_fn!\("(?P<id>[^"]+)"\);\n', re.M)


def splice(text, cs, external=()):
    """Insert the contracts.  Returns (text, info): info maps function id -> problems."""
    info = {}
    # split in function chunks, last first so that offsets stay valid
    ms = list(FN_RE.finditer(text))
    for m in reversed(ms):
        fid, ind = m.group("id"), m.group("ind")
        prob = []
        # signature: from the line starting with fn / pub fn
        ob = text.rfind("{", 0, m.start())
        sig_start = max(text.rfind("pub fn ", 0, ob), text.rfind(" fn ", 0, ob) + 1)
        if text[sig_start - 4:sig_start] == "pub ":
            sig_start -= 4
        cb = match_close(text, ob, "{", "}")
        sig = text[sig_start:ob].rstrip()
        body = text[m.end():cb]
        c = cs.get(fid)
        ret = c.ret if c else "ret"
        i = sig.find("VcRet<")
        if i >= 0:
            j = match_close(sig, i + 5, "<", ">")
            sig = sig[:i] + "(%s: %s)" % (ret, sig[i + 6:j]) + sig[j + 1:]
        info[fid] = prob
        pre = ""
        if c:
            for a in c.attrs:
                pre += a + "\n" + ind[4:]
            for pat, rep in c.subst:
                nb = re.sub(pat, rep, body)
                body = nb
            body = do_body(body, c, prob, ind, fid)
            spec = "".join(ind + l + "\n" for l in c.spec.splitlines() if l.strip())
            where = ""
            sig_full = sig
            head = "%s\n%s%s" % (sig_full, spec, ind[4:])
        else:
            body, bad = strip_markers(body)
            if bad:
                prob.append("has a loop or closure but no contract")
            head = sig + " "
            prob.append("no contract")
        if fid in external:
            pre += "#[verifier::external_body]\n" + ind[4:]
            body = ind + "unimplemented!()\n" + ind[4:]
        text = text[:sig_start] + "/*@FN %s*/ " % fid + pre + head + "{/*@BODY*/\n" + body + "/*@END*/" + text[cb:]
    return text, info


def strip_markers(body):
    n = len(re.findall(r"vc_(loop|clo)!\(\d+\);", body))
    body = re.sub(r"\s*vc_(loop|clo)!\(\d+\);", "", body)
    return body, n


def do_body(body, c, prob, ind, fid):
    lines = body.split("\n")

    def indent_of(l):
        return l[: len(l) - len(l.lstrip())]

    # hints first (line based, on the pristine body)
    ins_before, ins_after = {}, {}
    for kind, arg, nth, txt in c.hints:
        txt = txt.rstrip("\n")
        if kind == "start":
            ins_before.setdefault(0, []).append(txt)
        elif kind == "end":
            # before the closing brace (after the last statement; the function has no tail expression)
            last = max([k for k, l in enumerate(lines) if l.strip()] or [0])
            ins_after.setdefault(last, []).append(txt)
        elif kind in ("before", "after"):
            hits = [k for k, l in enumerate(lines) if re.search(arg, l)]
            if len(hits) < nth:
                prob.append("lost anchor /%s/" % arg)
                continue
            k = hits[nth - 1]
            (ins_before if kind == "before" else ins_after).setdefault(k, []).append(txt)
        else:
            hits = [k for k, l in enumerate(lines) if "vc_loop!(%d);" % arg in l]
            if not hits:
                prob.append("lost loop %d" % arg)
                continue
            k = hits[0]
            if kind == "loopstart":
                ins_after.setdefault(k, []).append(txt)
            else:
                # the loop header is the line before (ends in `{`), the end has the header's indentation
                h = k - 1
                while not lines[h].rstrip().endswith("{"):
                    h -= 1
                hind = indent_of(lines[h])
                e = k
                while not (lines[e].startswith(hind + "}") ):
                    e += 1
                hh = h
                if kind == "loopend":
                    # the last expression of the body becomes a statement
                    if lines[e - 1].rstrip()[-1:] not in (";", "}", "{"):
                        lines[e - 1] = lines[e - 1].rstrip() + ";"
                    ins_before.setdefault(e, []).append(txt)
                elif kind == "afterloop":
                    ins_after.setdefault(e, []).append(txt)
                else:
                    while not re.match(r"\s*('\w+: )?(while|loop)\b", lines[hh]):
                        hh -= 1
                    ins_before.setdefault(hh, []).append(txt)
    out = []
    for k, l in enumerate(lines):
        for t in ins_before.get(k, []):
            out.append(t)
        out.append(l)
        for t in ins_after.get(k, []):
            out.append(t)
    body = "\n".join(out)

    # `acc0_K`: the value the accumulator of the K-th loop (an `any` or `all`) starts from
    init = dict(re.findall(r"let mut acc_(\d+): bool = (true|false);", body))
    start_of = lambda s: re.sub(r"\bacc0_(\d+)\b", lambda m: init.get(m.group(1), m.group(0)), s)
    body = start_of(body)

    # loops
    def loop(m):
        n = int(m.group(1))
        if n not in c.loops:
            prob.append("loop %d has no invariant" % n)
            return "{\n"
        inv = "".join(ind + "        " + x + "\n" for x in start_of(c.loops[n]).splitlines() if x.strip())
        return "\n" + inv + ind + "{/*@LOOP %d*/\n" % n

    body = re.sub(r"\{\s*vc_loop!\((\d+)\);\n", loop, body)
    for n in c.loops:
        pass

    # closures
    while True:
        m = re.search(r"\{\s*vc_clo!\((\d+)\);", body)
        if not m:
            break
        n = int(m.group(1))
        # parameters: |a, b| before the brace
        j = body.rfind("|", 0, m.start())
        i = body.rfind("|", 0, j)
        names = [x.strip() for x in split_top(body[i + 1:j])]
        if n not in c.closures:
            prob.append("closure %d has no contract" % n)
            body = body[: m.start()] + "{" + body[m.end():]
            continue
        hd, sp = c.closures[n]
        mm = re.match(r"\((.*)\)\s*->\s*\((\w+): (.*)\)$", hd)
        tys = []
        spt = sp
        for nm, pt in zip(names, split_top(mm.group(1))):
            pn, ty = pt.split(":", 1)
            pn = pn.strip()
            nm2 = nm.split(":")[0].strip()
            tys.append("%s: %s" % (nm2, ty.strip()))
            if pn != nm2:
                spt = re.sub(r"\b%s\b" % re.escape(pn), nm2, spt)
        if len(names) != len(split_top(mm.group(1))):
            prob.append("closure %d changed its parameters" % n)
        body = (body[:i] + "|" + ", ".join(tys) + "| -> (%s: %s)\n%s{" % (mm.group(2), mm.group(3), spt) + body[m.end():])
    used = set(int(x) for x in re.findall(r"vc_loop!\((\d+)\)", "\n".join(lines)))
    for n in c.loops:
        if n not in used:
            prob.append("loop %d is gone" % n)
    return body


def by_hand(cs, fns):
    for f in fns:
        if f not in cs and f.endswith(("::clone@", "::eq@")):
            c = Contract(f)
            c.ret = "r"
            c.spec = "ensures r == *self," if f.endswith("::clone@") else "ensures r == (*self == *other),"
            cs[f] = c


def eq_specs(fns):
    return "".join("impl PartialEqSpecImpl for %s { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other } }\n" % f.split("::")[0]
                   for f in fns if f.endswith("::eq@"))


HEADER = """#![feature(allocator_api)]
#![allow(unused, unused_parens, non_snake_case, non_camel_case_types, mismatched_lifetime_syntaxes, elided_lifetimes_in_paths, unused_imports, dead_code, unused_mut, unused_variables)]
use std::borrow::Cow;
use std::ops::Bound;
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use vstd::seq_lib::*;
verus! {
"""


def assemble(extracted, cs, external=(), extra="", pid=None):
    text = open(extracted).read()
    text, trusted = expand_derives(text)
    text, info = splice(text, cs, external)
    parts = [HEADER]
    d = os.path.join(VERIF, "contracts")
    for f in sorted(os.listdir(d)):
        if f.endswith(".rs"):
            parts.append("// ---- %s\n" % f + only(open(os.path.join(d, f)).read(), pid))
    parts.append("// ---- extracted from %s/src\n" % REPO + text)
    parts.append(eq_specs(info))
    if pid == "C14":
        parts.append("// ---- generated from the declarations and their serde attributes\n" + open(extracted + ".serde").read())
    parts.append(extra)
    parts.append("\n} // verus!\nfn main() {}\n")
    return reach("".join(parts)), info, trusted


def reach(text):
    """`hide(f)` of a function that is not otherwise reachable crashes the verifier: mention it"""
    say = {}
    names = set(re.findall(r"\bhide\((\w+)\);", text))
    for n in names:
        m = re.search(r"spec fn %s\b([^\n]*)" % n, text)
        if not m:
            raise Undecided("hide(%s): no such function" % n)
        sig = m.group(1)
        if sig.startswith("<"):
            say[n] = ""  # what hides it has to mention it
            continue
        k, d = 1, 1
        while d:
            d += {"(": 1, ")": -1}.get(sig[k], 0)
            k += 1
        args = sig[1:k - 1].strip().rstrip(",")
        call = ", ".join(re.findall(r"(\w+)\s*:(?!:)", args))
        say[n] = "let h_%s = |%s| %s(%s);" % (n, args, n, call)
    return re.sub(r"(?:\bhide\(\w+\);[ \t]*)+", lambda m: m.group(0) + " assert(true) by { " + " ".join(say[n] for n in re.findall(r"hide\((\w+)\)", m.group(0))) + " } ", text)



def contract_files():
    d = os.path.join(VERIF, "contracts")
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".vc")]


def fn_map(text):
    """line number -> function / lemma name"""
    res = []
    cur = None
    for ln, l in enumerate(text.split("\n"), 1):
        m = re.search(r"/\*@FN ([^*]+)\*/", l)
        if m:
            cur = m.group(1)
        elif cur is None or not cur.startswith("fn:"):
            pass
        mm = re.match(r"^\s*(?:pub )?(?:broadcast )?(?:proof|open spec|spec|closed spec) fn (\w+)", l)
        if mm:
            cur = "lemma:" + mm.group(1)
        mm = re.match(r"^\s*(?:pub )?fn (\w+)", l)
        if mm and not m:
            cur = "shim:" + mm.group(1)
        res.append(cur)
    return res


def run_verus(path, args=(), timeout=600, errors=3):
    t0 = time.time()
    try:
        r = sh(["verus", "--error-format=json", "--output-json", "--time-expanded", "--num-threads", "8", "--rlimit", "25", "--multiple-errors", str(errors), path] + list(args), timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Undecided("verus ran out of time")
    wall = time.time() - t0
    errs = []
    for line in r.stderr.splitlines():
        line = line.strip()
        if line.startswith("{"):
            try:
                errs.append(json.loads(line))
            except ValueError:
                pass
    try:
        out = json.loads(r.stdout)
    except ValueError:
        out = {}
    return r.returncode, out, errs, wall, r.stderr


if __name__ == "__main__":
    # developer entry: assemble and verify, print human readable errors
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--external", default="")
    ap.add_argument("--only", default="")
    ap.add_argument("-o", default="/tmp/t/all.rs")
    ap.add_argument("--pid", default=None)
    ap.add_argument("--no-verify", action="store_true")
    ap.add_argument("rest", nargs="*")
    a = ap.parse_args()
    os.makedirs(BUILD, exist_ok=True)
    log = extract(BUILD + "/extracted.rs", a.pid)
    cs = parse_contracts(contract_files(), a.pid)
    ext = [x for x in a.external.split(",") if x]
    if a.external == "ALL":
        ext = [l.split()[1] for l in log if l.startswith("FN ")]
    if a.external == "NOCON":
        ext = [l.split()[1] for l in log if l.startswith("FN ") and l.split()[1] not in cs]
    text, info, trusted = assemble(BUILD + "/extracted.rs", cs, ext, pid=a.pid)
    from check import spin
    open(a.o, "w").write(spin(text))
    for k, v in info.items():
        if [x for x in v if x != "no contract"]:
            print("PROBLEM", k, v)
    for k in cs:
        if k not in info:
            print("PROBLEM contract for missing function", k)
    args = ["--num-threads", "8", "--rlimit", "25"] + a.rest
    for o in [x for x in a.only.split(",") if x]:
        args += ["--verify-root", "--verify-function", o]
    t0 = time.time()
    if not a.no_verify:
        r = subprocess.run(["verus", a.o] + args)
        print("wall %.1f" % (time.time() - t0))
