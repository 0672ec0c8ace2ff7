"""Assembles the Verus input from the extraction of /repo (vx) and the contracts in /verif/specs."""
import glob, json, os, re, subprocess, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stdspec

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(VERIF, "specs")
VX = os.path.join(VERIF, "vx", "target", "release", "vx")
INHERENT = {"Iterator", "Index", "PartialEq", "Default", "BuildHasher"}
SKIP_TRAITS = {"BuildHasher", "Debug", "IntoIterator"}


class Spec:
    def __init__(self):
        self.preludes = []      # (module or "", requires set of tags, text)
        self.fns = {}           # key -> dict section -> text / clause list
        self.order = []
        self.trusted = set()    # keys with a hand-written trusted declaration in a prelude
        self.traititems = {}    # owner -> spec functions of its trait impl
        self.lemma_names = []


def parse_specs():
    sp = Spec()
    for path in sorted(glob.glob(os.path.join(SPECS, "*.spec"))):
        cur = None
        sec = None
        for line in open(path).read().split("\n"):
            m = re.match(r"^=== (\w+)\s*(.*)$", line)
            if m:
                kind, arg = m.group(1), m.group(2).strip()
                sec = None
                if kind == "prelude":
                    cur = ["prelude", arg, []]
                    sp.preludes.append(cur)
                elif kind == "fn":
                    cur = {"__key": arg, "__file": os.path.basename(path)}
                    sp.fns[arg] = cur
                    sp.order.append(arg)
                elif kind == "traititems":
                    cur = ["traititems", arg, []]
                    sp.traititems[arg] = cur
                elif kind == "trusted":
                    sp.trusted.add(arg)
                    cur = None
                continue
            if cur is None:
                continue
            if isinstance(cur, list):
                cur[2].append(line)
                continue
            m = re.match(r"^(attr|requires|ensures|entry|exit|inv|dec|ens|invx|top|begin|end|before|after|let|stmt|asg|then|els|never)( [^:]*)?:\s*(.*)$", line)
            if m and not line.startswith(" "):
                sec = m.group(1) + (" " + m.group(2).strip() if m.group(2) and m.group(2).strip() else "")
                cur.setdefault(sec, [])
                if m.group(3).strip():
                    cur[sec].append(m.group(3))
                continue
            if sec and not line.startswith("#"):
                cur[sec].append(line)
    return sp


CLAUSE_SECS = ("requires", "ensures", "inv", "ens", "invx")


def clauses(lines):
    """list of (tag or None, text)"""
    out = []
    for l in lines:
        if not l.strip():
            continue
        s = l.strip()
        if s.startswith("- "):
            s = s[2:].strip()
            m = re.match(r"^\[(\w+)\]\s*(.*)$", s)
            if m:
                out.append([m.group(1), m.group(2)])
            else:
                out.append([None, s])
        else:
            if not out:
                out.append([None, s])
            else:
                out[-1][1] += "\n        " + s
    return out


def run_vx(sp, src="/repo/src"):
    keys = sorted(set(sp.fns) | sp.trusted)
    p = "/tmp/vx_keys.%d" % os.getpid()
    with open(p, "w") as f:
        f.write("\n".join(keys) + "\n")
    try:
        r = subprocess.run([VX, src, p], capture_output=True, text=True)
    finally:
        os.unlink(p)
    if r.returncode != 0:
        return None, r.stderr
    return json.loads(r.stdout), ""


def load_baseline():
    p = os.path.join(SPECS, "baseline.json")
    return json.load(open(p)) if os.path.exists(p) else {}


def skeleton(f):
    """branches, early returns, mutable and mutably borrowed locals of the extracted text (helpers are inlined)"""
    b = f["body"]
    b2 = re.sub(r"let mut (vx_|self)\w*", "", b)
    return [len(re.findall(r"\bif\b", b)), len(re.findall(r"\bmatch\b", b)), len(re.findall(r"vx_exit ! \((?!t)", b)),
            len(re.findall(r"\blet mut\b", b2)), len(re.findall(r"let \w+ = (?:& ?mut|\w+ . \w+_mut)", b2))]


def fn_shape(f):
    return {"skel": skeleton(f), "params": f["params"], "locals": f["locals"], "loops": [k for k in f["loop_kinds"]], "sig": re.sub(r"\s+", "", f["sig"])}


def item_shapes(vx):
    """struct -> list of field names"""
    out = {}
    for it in vx["items"]:
        if it["kind"] == "struct":
            body = it["text"]
            i = body.find("{")
            if i >= 0:
                out[it["module"] + "::" + it["name"]] = re.findall(r"pub (\w+)\s*:(?!:)", body[i:])
    return out


def snapshot(vx):
    return {"fns": {f["key"]: fn_shape(f) for f in vx["fns"]}, "structs": item_shapes(vx)}


def apply_renames(sp, vx, base):
    """renamed struct fields (same struct, same number of fields): carry the contracts over"""
    cur = item_shapes(vx)
    ren = {}
    for k, fs in base.get("structs", {}).items():
        now = cur.get(k)
        if now and len(now) == len(fs):
            for a, b in zip(fs, now):
                if a != b and a not in now and b not in fs:
                    ren[a] = b
    if not ren:
        return ren
    pat = "|".join(map(re.escape, sorted(ren, key=len, reverse=True)))
    f1 = re.compile(r"(?<=\.)(%s)\b(?!\s*\()" % pat)
    f2 = re.compile(r"\b(%s)(?=\s*:(?!:))" % pat)

    def go(t):
        return f2.sub(lambda m: ren[m.group(1)], f1.sub(lambda m: ren[m.group(1)], t))
    for p in sp.preludes + list(sp.traititems.values()):
        p[2] = [go(l) for l in p[2]]
    for spec in sp.fns.values():
        for k, v in spec.items():
            if isinstance(v, list):
                spec[k] = [go(l) for l in v]
    return ren


def new_fields(vx, base):
    """fields that a struct of the baseline has now and did not have (renamed ones aside): no contract knows them"""
    cur = item_shapes(vx)
    out = set()
    for k, fs in base.get("structs", {}).items():
        now = cur.get(k)
        if now and len(now) != len(fs):
            out |= set(now) - set(fs)
    return out


def subst_locals(text, ren):
    if not ren:
        return text
    return re.sub(r"(?<![\w.])(%s)(?!\w)" % "|".join(map(re.escape, sorted(ren, key=len, reverse=True))), lambda m: ren[m.group(1)], text)


MARK = re.compile(r"vx_(fn_entry|exit|loop|loop_begin|loop_end|before|after|let|stmt|asg|br) ! \(([^()]*)\)\s*;?")


def loop_sub(text, i):
    return text.replace("$k", "vx_k%d" % i).replace("$n", "vx_n%d" % i).replace("$it", "vx_it%d" % i).replace("$r", "vx_r%d" % i).replace("$c", "vx_c%d" % i).replace("$s", "vx_pre%d" % i)


def call_args(before):
    """argument texts of the call statement that ends at the end of `before` (`$a0`, `$a1`, .. of a stmt hint)"""
    e = before.rstrip().rstrip(";").rstrip()
    if not e.endswith(")"):
        return []
    depth, i, cuts = 0, len(e) - 1, []
    while i >= 0:
        c = e[i]
        depth += c in ")]}"
        depth -= c in "([{"
        if depth == 0:
            break
        if depth == 1 and c == ",":
            cuts.append(i)
        i -= 1
    cuts = [i] + sorted(cuts) + [len(e) - 1]
    return [e[a + 1:b].strip() for a, b in zip(cuts, cuts[1:])]


def render_never(f, spec, tags, baseline):
    """The function once more, under the precondition that it must not return (section `never`): its body has to panic."""
    g = dict(f)
    g["sig"] = re.sub(r"\bfn %s\b" % re.escape(f["name"]), "fn %s_vx_never" % f["name"], f["sig"], count=1)
    sp = {"requires": spec["never"], "ensures": ["- false"], "attr": ["panics nonterm"]}
    return render_fn(g, sp, tags, baseline)[0]


def loop_class(k):
    src = re.split(r"[.:]", k)[0]
    return {"while": "cond", "loop": "cond", "iter_mut": "iter", "into_iter": "iter"}.get(src, src)


def render_fn(f, spec, tags, baseline, external=False, probe=False, wide=False):
    """Verus text of one function with its contract; returns (text, info)"""
    info = {"key": f["key"], "aligned": True, "missing": []}
    base = baseline.get("fns", {}).get(f["key"])
    ren = {}
    if base:
        if [x.split(":")[0] for x in base["loops"]] != [x.split(":")[0] for x in f["loop_kinds"]] and len(base["loops"]) != f["loops"]:
            info["aligned"] = False
        # a loop of another kind (over indices, over elements, on a condition) has other loop variables
        if [loop_class(x) for x in base["loops"]] != [loop_class(x) for x in f["loop_kinds"]]:
            info["aligned"] = False
        # a walk over two sequences instead of one (or the reverse) has other loop variables
        if [x.count("zip") for x in base["loops"]] != [x.count("zip") for x in f["loop_kinds"]]:
            info["aligned"] = False
        # more branches or early returns than the text the proof hints were written for: a failed obligation may be the
        # hint's fault
        if any(a > b for a, b in zip(skeleton(f), base.get("skel", [99, 99, 99]))):
            info["aligned"] = False
        pb = base["params"] + base["locals"]
        pc = f["params"] + f["locals"]
        if pb != pc and len(base["params"]) == len(f["params"]):
            ren.update({a: b for a, b in zip(base["params"], f["params"]) if a != b})
            # locals that keep their names may have moved; the others are matched in order
            gone, new = list(base["locals"]), []
            for x in f["locals"]:
                gone.remove(x) if x in gone else new.append(x)
            if len(gone) == len(new):
                ren.update({a: b for a, b in zip(gone, new) if a != b})
        if len(base["params"]) != len(f["params"]):
            info["aligned"] = False
    if f["unsupported"]:
        info["aligned"] = False

    def raw(name):
        if name not in spec:
            return ""
        # `//@tag` .. `//@end`: proof text needed only for clauses of that tag
        out, on = [], True
        for l in spec[name]:
            m = re.match(r"^\s*//@(\w+)\s*$", l)
            if m:
                on = m.group(1) == "end" or m.group(1) in tags
            elif on:
                out.append(l)
        return subst_locals("\n".join(out), ren)

    def cl(name, i=None):
        if name not in spec:
            return []
        out = []
        for tag, t in clauses(spec[name]):
            if tag is None or tag in tags:
                t = subst_locals(t, ren)
                if i is not None:
                    t = loop_sub(t, i)
                out.append(t)
        return out

    head = ""
    req, ens = cl("requires"), cl("ensures")
    if req:
        head += "\n    requires\n" + "".join("        %s,\n" % c for c in req)
    if ens:
        head += "\n    ensures\n" + "".join("        %s,\n" % c for c in ens)
    attr = raw("attr")
    checked = "panics" in attr
    attrs = ""
    for a in attr.split():
        if a.startswith("rlimit"):
            attrs += "#[verifier::%s]\n" % a
        elif a == "spinoff":
            attrs += "#[verifier::spinoff_prover]\n"
        elif a == "complexinv":
            attrs += "#[verifier::allow_complex_invariants]\n"
        elif a == "nonterm":
            attrs += "#[verifier::exec_allows_no_decreases_clause]\n"
    if wide and not external:
        # nonlinear arithmetic and the lemmas of group_wide: dearer, but indifferent to how a formula is written
        attrs = attrs.replace("#[verifier::spinoff_prover]\n", "") + "#[verifier::nonlinear]\n"
    vis = "" if f["trait"] and f["trait"] not in INHERENT else "pub "
    sig = f["sig"]
    if external:
        return "#[verifier::external_body]\n%s%s%s{ unimplemented!() }\n" % (vis, sig, head), info
    body = f["body"]
    used = set()

    # loop heads
    def head_of(m):
        i = int(m.group(1))
        s = ""
        for sec, kw in (("invx", "invariant_except_break"), ("inv", "invariant"), ("ens", "ensures")):
            c = cl("%s %d" % (sec, i), i)
            used.add("%s %d" % (sec, i))
            if c:
                s += "\n    %s\n" % kw + "".join("        %s,\n" % x for x in c)
        d = raw("dec %d" % i)
        used.add("dec %d" % i)
        if d.strip():
            s += "\n    decreases %s,\n" % loop_sub(d.strip(), i)
        elif "vx_n%d" % i in body and "vx_k%d <" % i in body:
            s += "\n    decreases vx_n%d - vx_k%d,\n" % (i, i)
        used.add("top %d" % i)
        return s + "\n{\n" + loop_sub(raw("top %d" % i), i) + "\n"
    body = re.sub(r"\{\s*vx_loop ! \((\d+)\s*\)\s*;", head_of, body)

    def mark(m):
        kind, arg = m.group(1), m.group(2).strip()
        a = [x.strip() for x in arg.split(",")]
        if kind == "fn_entry":
            used.add("entry")
            t = raw("entry")
            if wide and "vx_f" in f["body"]:
                t = "broadcast use crate::group_wide;\nproof { reveal(rmul); reveal_with_fuel(rpow, 4); }\n" + t
            if probe and "vx_exit ! (t" not in f["body"]:
                t += "\nproof { assert(false); } // vx-probe\n"
            return "\n" + t + "\n"
        if kind == "exit":
            used.add("exit %s" % a[0]); used.add("exit")
            # the end of a function whose only loop is left by `return` alone is never reached: probe the returns
            endless = "loop {" in f["body"] and not re.search(r"\bbreak\b", f["body"])
            p = "proof { assert(false); } // vx-probe\n" if probe and (a[0] == "t") != endless else ""
            return "\n" + p + raw("exit %s" % a[0]) + "\n" + raw("exit") + "\n"
        if kind == "before":
            used.add("before %s" % a[0])
            # `$s`: the receiver when the loop starts
            snap = any(re.search(r"\$s\b", "\n".join(v)) for k, v in spec.items() if isinstance(v, list) and k.split()[-1] == a[0])
            return "\n" + ("let ghost vx_pre%s = *self;\n" % a[0] if snap else "") + raw("before %s" % a[0]) + "\n"
        if kind in ("loop_begin", "loop_end", "after"):
            n = {"loop_begin": "begin", "loop_end": "end", "after": "after"}[kind]
            used.add("%s %s" % (n, a[0]))
            return "\n" + loop_sub(raw("%s %s" % (n, a[0])), int(a[0])) + "\n"
        if kind == "br":
            used.add("%s %s" % (a[0], a[1]))
            return "\n" + raw("%s %s" % (a[0], a[1])) + "\n"
        name = a[0]
        inv = {v: k for k, v in ren.items()}
        k = "%s %s %s" % (kind, inv.get(name, name), a[1])
        used.add(k)
        txt = raw(k)
        if kind == "let":
            # declared later than in the text the hint was written for: the hint waits for the names it speaks of
            names = base["locals"] if base else []
            o = inv.get(name, name)
            late = [p for x, p in lets.items() if p > m.start() and inv.get(x, x) in names and o in names and
                    names.index(inv.get(x, x)) < names.index(o) and re.search(r"(?<![\w.])%s(?!\w)" % re.escape(x), txt)]
            if late:
                waiting.setdefault(max(late), []).append(txt)
                txt = ""
            txt = "\n".join([txt] + waiting.pop(m.start(), []))
        if kind == "stmt" and "$a" in txt:
            for i, x in enumerate(call_args(m.string[:m.start()])):
                txt = txt.replace("$a%d" % i, "(%s)" % x)
        return "\n" + txt + "\n"
    waiting, lets = {}, {}
    for m in MARK.finditer(body):
        if m.group(1) == "let":
            lets.setdefault(m.group(2).split(",")[0].strip(), m.start())
    body = MARK.sub(mark, body)
    body = re.sub(r"\bvx_real_(\d+)_p_(\d+)\b", r"\1.\2real", body)
    for m in re.finditer(r"wrap\((\w+),(\w+)\)", attr):
        # a statistic which the property does not depend on: its overflow is checked under another property
        if m.group(1) not in tags:
            body = re.sub(r"self \. %s ([+-])= ([^;]+);" % m.group(2),
                          lambda x: "self . %s = self . %s . wrapping_%s (%s) ;" % (m.group(2), m.group(2), {"+": "add", "-": "sub"}[x.group(1)], x.group(2)), body)
            body = re.sub(r"self \. %s \* (\w+)" % m.group(2), lambda x: "self . %s . wrapping_mul (%s)" % (m.group(2), x.group(1)), body)
            info.setdefault("notes", []).append("overflow of the statistic `%s` is not checked here (checked under the property on counts)" % m.group(2))
    if checked:
        body = re.sub(r"vx_assert \(", "vx_check (", body)
    m = re.search(r"panic_if\((\w+)\)", attr)
    if m:
        # the documented panic: allowed in the state named by the ghost variable, and only there
        body = re.sub(r"vx_assert \((.*?)\) ;", lambda x: "vx_check_if (%s , Ghost (%s)) ;" % (x.group(1), m.group(1)), body)
        body = re.sub(r"vx_panic \(\)", "vx_panic_if (Ghost (%s))" % m.group(1), body)
    for k in spec:
        if k.startswith("__") or k in ("attr", "requires", "ensures", "never") or k in used:
            continue
        info["missing"].append(k)
    if info["missing"]:
        info["aligned"] = False
    if re.search(r"\bby\s*\((nonlinear_arith|bit_vector)\)", body):
        # the verifier admits no such queries inside a function marked nonlinear
        attrs = attrs.replace("#[verifier::nonlinear]\n", "")
    return "%s#[verifier::loop_isolation(false)]\n%s%s%s%s\n" % (attrs, vis, sig, head, body), info


def assemble(sp, vx, keys, tags, baseline, external=(), probe_keys=(), extra="", wide=()):
    """keys: functions to verify (others under contract that they call are emitted as well)"""
    fns = {f["key"]: f for f in vx["fns"]}
    todo, seen = list(keys), []
    missing = []
    while todo:
        k = todo.pop(0)
        if k in seen:
            continue
        if k in sp.trusted:
            continue
        if k not in fns:
            missing.append(k)
            continue
        if k not in sp.fns:
            continue
        seen.append(k)
        for c in fns[k]["calls"]:
            if c in sp.fns and c not in seen:
                todo.append(c)
        # calls made through inlined helpers are in `calls` as well
    mods = {}
    for it in vx["items"]:
        mods.setdefault(it["module"], {"items": [], "fns": [], "prelude": []})["items"].append(it)
    for k in seen:
        mods[fns[k]["module"]]["fns"].append(k) if fns[k]["module"] in mods else mods.setdefault(fns[k]["module"], {"items": [], "fns": [k], "prelude": []})
    for _, arg, lines in sp.preludes:
        a = arg.split()
        if a and a[0] != "root":
            mods.setdefault(a[0], {"items": [], "fns": [], "prelude": []})["prelude"].append("\n".join(lines))
    root = "\n".join("\n".join(l) for _, a, l in sp.preludes if a.split()[:1] == ["root"])
    # modules needed: those of the functions, closed under the types they use (kept simple: a fixed dependency table)
    need = set(fns[k]["module"] for k in seen) | {"util"}
    deps = json.load(open(os.path.join(SPECS, "modules.json")))
    ch = True
    while ch:
        ch = False
        for m in list(need):
            for d in deps.get(m, []):
                if d not in need:
                    need.add(d)
                    ch = True
    for k, f in fns.items():
        # `vec![x; n]` needs the Clone impls of the types involved
        if f["trait"] == "Clone" and f["module"] in need and k in sp.fns and k not in seen and set(f["calls"]) & set(sp.fns) <= set(seen):
            seen.append(k)
            mods[f["module"]]["fns"].append(k)
    out = []
    spans = []
    out.append("#![allow(unused_imports, unused_variables, unused_mut, unused_parens, unused_braces, dead_code, unused_assignments, non_camel_case_types)]\n")
    out.append("use vstd::prelude::*;\nuse std::hash::{BuildHasher, Hash};\nuse std::marker::PhantomData;\nuse std::borrow::Borrow;\nuse std::cmp::Ordering;\nuse std::fmt::Debug;\nuse core::ops::Range;\n")
    out.append("verus! {\nglobal size_of usize == 8;\n")
    root_at = len(out)
    out.append(root + "\n")
    for m in sorted(need):
        out.append("pub use %s::*;\n" % m)
    infos = []
    cur_line = lambda: sum(x.count("\n") for x in out) + 1
    for m in sorted(need):
        d = mods.get(m, {"items": [], "fns": [], "prelude": []})
        more = "".join(", " + x for x in re.findall(r"^//@broadcast (.*)$", "\n".join(d["prelude"]), re.M))
        out.append("pub mod %s {\nuse super::*;\nbroadcast use {vstd::group_vstd_default, crate::vx_model::axiom_hash_ref%s};\n" % (m, more))
        for it in d["items"]:
            if it["kind"] == "trait":
                continue
            t = it["text"]
            if it["kind"] == "struct":
                if it.get("copy") and it["name"] != "SipHasherBuilder":
                    out.append("#[derive(Clone, Copy)]\n")
                elif it["name"] == "SipHasherBuilder":
                    out.append("#[derive(Clone, Copy)]\n")
            out.append(t + "\n")
        out.append("\n".join(d["prelude"]) + "\n")
        groups = {}
        for k in d["fns"]:
            f = fns[k]
            g = (f["owner"], f["impl_generics"], f["self_ty"], f["impl_where"], f["trait"] if f["trait"] not in INHERENT and f["trait"] else "")
            groups.setdefault(g, []).append(k)
        for (owner, gen, self_ty, wh, tr), ks in sorted(groups.items()):
            if owner:
                if tr:
                    out.append("impl%s %s for %s %s {\n" % (gen, tr, self_ty, wh))
                    out.append("\n".join(sp.traititems[owner][2] if owner in sp.traititems else []) + "\n")
                else:
                    out.append("impl%s %s %s {\n" % (gen, self_ty, wh))
            for k in ks:
                start = cur_line()
                t, info = render_fn(fns[k], sp.fns[k], tags, baseline, external=(k in external), probe=(k in probe_keys), wide=(k in wide))
                if "panics_external" in t:
                    pass
                out.append(t)
                if "never" in sp.fns[k] and k not in external:
                    out.append(render_never(fns[k], sp.fns[k], tags, baseline))
                info["span"] = (start, cur_line())
                info["source"] = fns[k]["source"]
                infos.append(info)
            if owner:
                out.append("}\n")
        out.append("} // mod %s\n" % m)
    std = stdspec.used("\n".join(f["body"] for f in (fns[i["key"]] for i in infos)))
    if std:
        # on one line, so that the spans recorded above stay right
        out[root_at] = out[root_at].rstrip("\n") + " " + " ".join(std) + "\n"
    out.append(extra)
    out.append("} // verus!\nfn main() {}\n")
    return "".join(out), infos, missing

