"""Assembles Verus files from /repo's expanded source, the contracts in spec/ and the prelude."""
import json, os, re, subprocess, sys, time, shutil, hashlib
V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, "build")
REPO = os.environ.get("PARSEL_REPO", "/repo")
LOCK = os.path.join(V, "Cargo.lock.pinned")

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)

def env(**kw):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR", "RUSTC_WRAPPER"): e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["PATH"] = "/usr/local/bin:/root/.cargo/bin:" + e.get("PATH", "")
    e.update(kw)
    return e

# ------------------------------------------------------------------ spec files
def preprocess(text, flags):
    out, skip = [], []
    for line in text.split("\n"):
        m = re.match(r"\s*//@if (!?)(\w+)\s*$", line)
        if m:
            on = (m.group(2) in flags) != (m.group(1) == "!")
            skip.append(not on); continue
        if re.match(r"\s*//@end\s*$", line) and skip:
            k = skip.pop()
            if k == "each": out.append(line)
            continue
        m = re.match(r"\s*//@each ", line)
        if m: skip.append("each"); out.append(line); continue
        if not any(s is True for s in skip): out.append(line)
    text = "\n".join(out)
    # //@each A,B in x,y;z,w  ... //@end
    def rep(m):
        names = [n.strip() for n in m.group(1).split(",")]
        res = []
        for inst in m.group(2).strip().split(";"):
            vals = [v.strip() for v in inst.split(",")]
            body = m.group(3)
            for n, v in zip(names, vals):
                body = re.sub(r"(?<![A-Za-z0-9])%s(?![A-Za-z0-9])" % n if len(n) == 1 else n, v, body)
            res.append(body)
        return "\n".join(res)
    return re.sub(r"//@each ([^\n]*?) in ([^\n]*)\n(.*?)//@end", rep, text, flags=re.S)

def load_spec(files, flags):
    fns, specs = {}, {}
    for f in files:
        text = preprocess(open(os.path.join(V, "spec", f)).read(), flags)
        cur, sect, common = None, None, {}
        for line in text.split("\n"):
            m = re.match(r"#opts (.*)$", line)
            if m: common = json.loads(m.group(1)); continue
            m = re.match(r"#(fn|spec) (.*)$", line)
            if m:
                if m.group(1) == "fn":
                    cur = fns.setdefault(m.group(2).strip(), {"key": m.group(2).strip()}); sect = None
                    if common: cur["common"] = common
                else:
                    cur = None; sname = m.group(2).strip(); specs.setdefault(sname, ""); sect = "spec"
                continue
            if cur is None:
                if sect == "spec": specs[sname] += line + "\n"
                continue
            m = re.match(r"(ret|mode|opts|roles|alt|self|name|drop|module|assoc|from|bound): (.*)$", line)
            if m:
                cur[m.group(1)] = m.group(2).strip(); continue
            m = re.match(r"(contract|prologue|extra|epilogue|loop \d+|body \d+|clo \d+|header)( \w+)?:\s*$", line)
            if m:
                sect = m.group(1) + (m.group(2) or ""); cur[sect] = ""; continue
            if sect: cur[sect] += line + "\n"
            elif line.strip(): raise Exception("spec line outside a section: %r" % line)
    return fns, specs

# ------------------------------------------------------------------ building blocks
def build_vx():
    t = os.path.join(B, "vx-target")
    os.makedirs(t, exist_ok=True)
    src = os.path.join(V, "vx")
    r = sh(["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(src, "Cargo.toml")], env=env(CARGO_TARGET_DIR=t))
    if r.returncode: raise Exception("vx does not build:\n" + r.stderr[-3000:])
    return os.path.join(t, "debug", "vx")

def expand_dep(name):
    """macro-expanded source of a dependency of parsel (`crate` or `crate::module`), in the version and with the features parsel is built with"""
    name, _, module = name.partition("::")
    out = os.path.join(B, "%s.expanded.rs" % "-".join(x for x in (name, module) if x))
    r = sh(["cargo", "rustc", "--manifest-path", os.path.join(V, "expand", "Cargo.toml"), "-p", name, "--lib", "--offline", "--quiet", "--", "-Zunpretty=expanded"],
           env=env(CARGO_TARGET_DIR=os.path.join(B, "repo-target"), RUSTC_BOOTSTRAP="1"))
    if r.returncode or not r.stdout.strip(): raise Exception("cannot expand %s:\n" % name + r.stderr[-3000:])
    text = r.stdout
    if module:
        # one module of the crate, where names are not unique in the whole
        i = re.search(r"^(pub )?mod %s \{" % module, text, re.M).start()
        text = text[i:text.index("\n}", i) + 3]
    open(out, "w").write(text)
    return out

def take_from(text, header, name, start=None):
    """cut the assumed function `name` out of the impl that starts with `header`: (what is left, its contract, parameter names, its spec functions)

    The contract that the rest of the development assumes is the one that is proved of the real function."""
    if " for " not in header and start is None:
        # the impl of that header that has the function
        for m in re.finditer("^" + re.escape(header), text, re.M):
            try: return take_from(text, header, name, m.start())
            except KeyError: pass
        raise Exception("no %s in %s" % (name, header))
    i = text.index("\n" + header) + 1 if start is None else start
    if re.match(r"[^\n]*\}\n", text[i:]): j = text.index("\n", i) + 1
    else: j = text.index("\n}\n", i) + 3
    blk = text[i:j]
    specs = "".join("    " + x + "\n" for x in re.findall(r"\b(?:open spec fn [^{]*\{(?:[^{}]|\{[^{}]*\})*\}|uninterp spec fn [^;]*;|type [^;]*;)", blk))
    if " for " in header: return text[:i] + text[j:], "", specs
    m = re.search(r"\n *#\[verifier::external_body\]\s*(pub fn %s\b(.*?)\{ unimplemented!\(\) \})" % name, blk, re.S)
    if not m: raise KeyError(name)
    sig = m.group(2)
    k, d = sig.index("("), 0
    for e in range(k, len(sig)):
        d += {"(": 1, ")": -1}.get(sig[e], 0)
        if d == 0: break
    names, d, cur = [], 0, ""
    for c in sig[k + 1:e] + ",":
        if c in "<([": d += 1
        if c in ">)]": d -= 1
        if c == "," and d == 0: names.append(cur.strip()); cur = ""
        else: cur += c
    names = [n.split(":")[0].replace("mut ", "").strip() for n in names if n.strip()]
    rest = sig[e + 1:]
    mm = re.search(r"\b(requires|ensures)\b", rest)
    con = rest[mm.start():].strip() if mm else ""
    for q, n in enumerate(names):
        if not n.endswith("self"): con = re.sub(r"(?<![.\w])%s\b(?! *:)" % re.escape(n), "{%d}" % q, con)
    return text[:i] + blk.replace(m.group(0), "") + text[j:], "    " + con + "\n" if con else "", ""

def expand_repo():
    """macro-expanded source of the parsel crate, from /repo's working tree"""
    t = os.path.join(B, "repo-target")
    os.makedirs(t, exist_ok=True)
    out = os.path.join(B, "parsel.expanded.rs")
    # cargo needs the lock file of the workspace; it is ignored by git
    src = os.path.join(REPO, "parsel", "src", "lib.rs")
    r = sh(["cargo", "rustc", "--manifest-path", os.path.join(V, "expand", "Cargo.toml"), "-p", "parsel", "--lib", "--offline", "--quiet", "--", "-Zunpretty=expanded"],
           env=env(CARGO_TARGET_DIR=t, RUSTC_BOOTSTRAP="1"))
    if r.returncode or not r.stdout.strip(): raise Exception("cannot expand parsel:\n" + r.stderr[-3000:])
    open(out, "w").write(r.stdout)
    return out

def known_names(text, keys):
    """names that have a meaning in the proof file: functions and methods of the prelude or under contract"""
    free, methods = set(), set()
    for n, p in re.findall(r"\bfn (\w+)\s*(?:<[^({]*?>)?\s*\(\s*([^),]*)", text):
        (methods if re.match(r"(&\s*('\w+\s+)?)?(mut\s+)?self\b", p) else free).add(n)
    for k in keys:
        n = k.split("::")[-1]
        methods.add(n)
        if " for " not in k: free.add(n)
    assoc = {k for k in keys if " for " not in k}
    for t, body in re.findall(r"^impl\b[^{\n]*?\b(\w+)\s*(?:<[^{\n]*>)?\s*(?:where[^{]*)?\{(.*?)^\}", re.sub(r"^(impl\b.*)\}$", r"\1\n}", text, flags=re.M), re.M | re.S):
        assoc |= {t + "::" + n for n in re.findall(r"\bfn (\w+)", body)}
    return {"free": sorted(free), "methods": sorted(methods), "assoc": sorted(assoc)}

def run_vx(sources, functions, types, known=None):
    os.makedirs(B, exist_ok=True)
    req = os.path.join(B, "vx-%d.json" % os.getpid())
    json.dump({"sources": [{"crate": c, "file": f} for c, f in sources], "functions": functions, "types": types, "known": known}, open(req, "w"))
    r = sh([build_vx(), req])
    os.unlink(req)
    if r.returncode: raise Exception("vx failed:\n" + r.stderr[-2000:])
    d = json.loads(r.stdout)
    if "fatal" in d: raise Exception(d["fatal"])
    return d

def merge(a, b):
    r = dict(a)
    for k, v in b.items(): r[k] = merge(r[k], v) if isinstance(v, dict) and isinstance(r.get(k), dict) else v
    return r

def clauses(t):
    return "\n".join(l for l in (t or "").split("\n") if l.strip())

ROLE = re.compile(r"\{([a-z_]+|[0-9])\}")

def role_bindings(spec, r, limit=12):
    """maps from role names used in loop hints to local names; the first is the identity"""
    roles = []
    for k, t in spec.items():
        if k.startswith("loop") or k.startswith("body") or k.startswith("prologue") or k.startswith("clo"):
            for x in ROLE.findall(t):
                if x not in roles and not x.isdigit(): roles.append(x)
    # a fork kept over iterations is at the input's place
    inv = []
    for x, y in re.findall(r"(?<!let )(?<!let mut )\b(\w+) = (\w+) \. fork \(", r["body"]):
        t = "%s@ == (St { cur: %s@.cur, left: false })," % (x, y)
        if t not in inv and r["loops"]: inv.append(t)
    inv = "\n".join(inv)
    more = lambda bs: bs + [dict(b, _inv=inv) for b in bs] if inv else bs
    if not roles: return more([{}])
    locs = []
    for n, _ in r["locals"]:
        if n not in locs: locs.append(n)
    allnames = r["param_names"] + locs
    fixed, free = {}, []
    its = [n for n in locs if n.startswith("vx_it_")]
    for x in roles:
        if x in allnames: fixed[x] = x
        elif x == "it" and its: fixed[x] = its[0]
        elif x == "found": fixed[x] = "vx_found"
        else: free.append(x)
    res = []
    cands = [n for n in allnames if n not in fixed.values() and not n.startswith("vx_")]
    for x, y in re.findall(r"\b(\w+) \. (\w+)\b(?! \()", r["body"]):
        if x in locs and not x.startswith("vx_") and x + "." + y not in cands: cands.append(x + "." + y)
    import itertools
    for p in itertools.permutations(cands, len(free)):
        b = dict(fixed); b.update(zip(free, p)); res.append(b)
        if len(res) >= limit: break
    if not free: res = [fixed]
    return more(res)

def render_one(spec, r, binding=None, body=True):
    """Verus text of one function: extracted code with its contract"""
    b = dict(binding or {})
    pn = list(r["param_names"])
    if r["params"] and re.match(r"^(& *)?(mut )?self\b", r["params"][0]) and len(pn) < len(r["params"]): pn.insert(0, "self")
    for i, n in enumerate(pn): b[str(i)] = n
    sub = lambda t: ROLE.sub(lambda m: b.get(m.group(1), m.group(1)), t)
    text = r["body"]
    ret = spec.get("ret", "r")
    # lemmas in scope of the function are in scope of its loops
    uses = "\n".join(l for l in clauses(spec.get("prologue", "")).split("\n") if l.strip().startswith("broadcast use"))
    if body:
        for k in range(len(r["loops"])):
            inv = sub(clauses(spec.get("loop %d" % k, "")))
            if b.get("_inv"): inv = re.sub(r"\b(invariant_except_break|invariant)\b", lambda m: m.group(0) + "\n" + b["_inv"], inv, count=1)
            bod = sub(clauses(spec.get("body %d" % k, "")))
            if "broadcast use" not in bod: bod = "\n".join(x for x in (uses, bod) if x)
            text = re.sub(r"\{\s*VXLOOP_%d_ ! \{\s*\}" % k, lambda m: "\n" + inv + "\n{" + ("\n" + bod + "\n" if bod else ""), text)
        for k in range(r["closures"]):
            m = re.search(r"\|\s*(?:mut )?(\w+)\s*\|\s*\{\s*VXCLO_%d_" % k, text)
            c = clauses(spec.get("clo %d" % k, ""))
            c = sub(c.replace("{c}", m.group(1)) if m else c)
            if "clo_shape %d" % k in spec:
                m = re.search(r"\|\s*(?:mut )?(\w+) : & mut ParseBuffer\s*\|\s*\{\s*VXCLO_%d_" % k, text)
                c = spec["clo_shape %d" % k].replace("{c}", m.group(1) if m else "input")
            text = re.sub(r"\{\s*VXCLO_%d_ ! \{\s*\}" % k, lambda m: " " + c + "\n{", text)
        text = text.strip()
        pro = sub(clauses(spec.get("prologue", "")))
        if pro: text = "{\n" + pro + "\n" + text[1:]
    else:
        text = "{ unimplemented!() }"
    where = ", ".join(x for x in [r["fn_where"], spec.get("bound")] if x)
    params = ", ".join(r["params"])
    mode = spec.get("mode") or ("trait" if r["trait"] else "inherent" if r["self_ty"] else "free")
    rett = r["ret"]
    name = spec.get("name") or spec.get("common", {}).get("ren", {}).get(r["name"], r["name"]) if mode == "trait" else r["name"]
    contract = sub(clauses(spec.get("contract", "")))
    ext = "" if body else "#[verifier::external_body]\n"
    retn = "" if rett == "()" else " -> (%s: %s)" % (ret, rett)
    if mode == "ext":
        # a default method of a trait: given to every implementor of the trait
        tr = r["key"].split(" ")[1].split("::")[0]
        sig = "fn %s%s(%s)%s\n%s\n" % (name, r["fn_generics"], params, retn, "where " + where if where else "")
        return "pub trait %s_%s: %s {\n%s%s;\n}\nimpl<VxT: %s + ?Sized> %s_%s for VxT {\n%s%s%s\n}\n" % (tr, name, tr, sig, contract.rstrip().rstrip(","), tr, tr, name, ext, sig, text)
    if mode.startswith("free"):
        gens = merge_gens(r["impl_generics"] or "", r["fn_generics"] or "")
        nm = mode.split()[1] if " " in mode else name
        wh = ", ".join(x for x in [r["impl_where"], where] if x)
        if r["self_ty"]:
            st = re.sub(r"\s+", " ", r["self_ty"])
            params = re.sub(r"^& mut self", "self_: &mut " + st, params); params = re.sub(r"^& self", "self_: &" + st, params)
            params = re.sub(r"^(mut )?self\b", "self_: " + st, params)
            text = re.sub(r"\bself\b", "self_", text); text = re.sub(r"\bSelf\b", turbofish(st), text)
            for a in r["assoc"] + [x for x in spec.get("assoc", "").split("|") if x]:
                m = re.match(r"type (\w+) = (.*);$", a.strip(), re.S)
                if m:
                    pat = r"\bSelf\s*::\s*%s\b" % m.group(1)
                    rett = re.sub(pat, lambda _: m.group(2).strip(), rett); params = re.sub(pat, lambda _: m.group(2).strip(), params); text = re.sub(pat, lambda _: m.group(2).strip(), text)
            rett2 = re.sub(r"\bSelf\b", st, rett); params = re.sub(r"\bSelf\b", st, params)
            retn = "" if rett == "()" else " -> (%s: %s)" % (ret, rett2)
        return "%spub fn %s%s(%s)%s\n%s\n%s\n%s\n" % (ext, nm, gens, params, retn, "where " + wh if wh else "", contract, text)
    f = "%s%sfn %s%s(%s)%s\n%s\n%s\n%s\n" % (ext, "" if mode == "trait" else "pub ", name, r["fn_generics"], params, retn, "where " + where if where else "", contract, text)
    head = "impl%s %s%s %s" % (r["impl_generics"], (spec.get("header", "").strip() or r["trait"]) + " for " if mode == "trait" else "", r["self_ty"], "where " + r["impl_where"] if r["impl_where"] else "")
    return head + " {\n" + ("\n".join(r["assoc"]) + "\n" if mode == "trait" and not spec.get("drop") else "") + spec.get("extra", "") + f + "}\n"

def turbofish(st):
    return re.sub(r"\s*<", "::<", st, count=1) if "<" in st else st

def merge_gens(a, b):
    ps = [x.strip()[1:-1].strip() for x in (a, b) if x and x.strip()]
    return "<" + ", ".join(p for p in ps if p) + ">" if any(ps) else ""

def unraw(t):
    """raw identifiers are renamed: the verifier cannot print them"""
    return "".join(x if i % 2 else re.sub(r"\br#([a-z]\w*)", r"raw_\1", x) for i, x in enumerate(re.split(r'("(?:\\.|[^"\\])*")', t)))

WIDEN = """
// widening conversions
pub trait VxTo_usize: Sized { spec fn num(self) -> int; fn to_usize(self) -> (r: usize) ensures r == self.num(); }
impl VxTo_usize for u8 { open spec fn num(self) -> int { self as int } fn to_usize(self) -> (r: usize) { self as usize } } impl VxTo_usize for u16 { open spec fn num(self) -> int { self as int } fn to_usize(self) -> (r: usize) { self as usize } } impl VxTo_usize for usize { open spec fn num(self) -> int { self as int } fn to_usize(self) -> (r: usize) { self as usize } }
pub fn usize_from<T: VxTo_usize>(x: T) -> (r: usize) ensures r == x.num() { x.to_usize() }
pub trait VxTo_u32: Sized { spec fn num(self) -> int; fn to_u32(self) -> (r: u32) ensures r == self.num(); }
impl VxTo_u32 for u8 { open spec fn num(self) -> int { self as int } fn to_u32(self) -> (r: u32) { self as u32 } } impl VxTo_u32 for u16 { open spec fn num(self) -> int { self as int } fn to_u32(self) -> (r: u32) { self as u32 } } impl VxTo_u32 for u32 { open spec fn num(self) -> int { self as int } fn to_u32(self) -> (r: u32) { self as u32 } }
pub fn u32_from<T: VxTo_u32>(x: T) -> (r: u32) ensures r == x.num() { x.to_u32() }
pub trait VxTo_u64: Sized { spec fn num(self) -> int; fn to_u64(self) -> (r: u64) ensures r == self.num(); }
impl VxTo_u64 for u8 { open spec fn num(self) -> int { self as int } fn to_u64(self) -> (r: u64) { self as u64 } } impl VxTo_u64 for u16 { open spec fn num(self) -> int { self as int } fn to_u64(self) -> (r: u64) { self as u64 } } impl VxTo_u64 for u32 { open spec fn num(self) -> int { self as int } fn to_u64(self) -> (r: u64) { self as u64 } } impl VxTo_u64 for u64 { open spec fn num(self) -> int { self as int } fn to_u64(self) -> (r: u64) { self as u64 } }
pub fn u64_from<T: VxTo_u64>(x: T) -> (r: u64) ensures r == x.num() { x.to_u64() }
pub trait VxTo_i64: Sized { spec fn num(self) -> int; fn to_i64(self) -> (r: i64) ensures r == self.num(); }
impl VxTo_i64 for u8 { open spec fn num(self) -> int { self as int } fn to_i64(self) -> (r: i64) { self as i64 } } impl VxTo_i64 for u16 { open spec fn num(self) -> int { self as int } fn to_i64(self) -> (r: i64) { self as i64 } } impl VxTo_i64 for u32 { open spec fn num(self) -> int { self as int } fn to_i64(self) -> (r: i64) { self as i64 } } impl VxTo_i64 for i8 { open spec fn num(self) -> int { self as int } fn to_i64(self) -> (r: i64) { self as i64 } } impl VxTo_i64 for i16 { open spec fn num(self) -> int { self as int } fn to_i64(self) -> (r: i64) { self as i64 } } impl VxTo_i64 for i32 { open spec fn num(self) -> int { self as int } fn to_i64(self) -> (r: i64) { self as i64 } } impl VxTo_i64 for i64 { open spec fn num(self) -> int { self as int } fn to_i64(self) -> (r: i64) { self as i64 } }
pub fn i64_from<T: VxTo_i64>(x: T) -> (r: i64) ensures r == x.num() { x.to_i64() }
pub trait VxTo_u16: Sized { spec fn num(self) -> int; fn to_u16(self) -> (r: u16) ensures r == self.num(); }
impl VxTo_u16 for u8 { open spec fn num(self) -> int { self as int } fn to_u16(self) -> (r: u16) { self as u16 } } impl VxTo_u16 for u16 { open spec fn num(self) -> int { self as int } fn to_u16(self) -> (r: u16) { self as u16 } }
pub fn u16_from<T: VxTo_u16>(x: T) -> (r: u16) ensures r == x.num() { x.to_u16() }
"""
HEADER = """#![allow(unused, non_snake_case, non_camel_case_types, unreachable_code)]
use vstd::prelude::*;
use vstd::seq::*;
verus! {
// conversion of a value to its own type (std, assumed)
pub assume_specification<T>[ <T as core::convert::From<T>>::from ](t: T) -> (r: T) ensures r == t;
pub assume_specification<T>[ core::convert::identity::<T> ](t: T) -> (r: T) ensures r == t;
"""
FOOTER = "\n} // verus!\nfn main() {}\n"

def run_verus(path, extra=(), timeout=300, rlimit=30):
    t0 = time.time()
    cmd = ["verus", path, "--output-json", "--error-format=json", "--time", "--multiple-errors", "8", "--rlimit", str(rlimit), "--num-threads", "4"] + list(extra)
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, env=env(), cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired:
        return {"ok": False, "timeout": True, "diags": [], "verified": 0, "errors": 0, "wall": time.time() - t0, "cmd": " ".join(cmd)}
    diags = []
    for line in r.stderr.split("\n"):
        if line.startswith("{"):
            try: d = json.loads(line)
            except Exception: continue
            if d.get("level") == "error":
                sp = [(s["line_start"], s["line_end"], s.get("label"), s.get("is_primary")) for s in d.get("spans", [])]
                diags.append({"msg": d["message"], "spans": sp, "text": d.get("rendered", ""), "code": (d.get("code") or {}).get("code")})
    ver = err = 0
    smt = None
    try:
        j = json.loads(r.stdout[r.stdout.index("{"):])
        vr = j.get("verification-results", {})
        ver, err = vr.get("verified", 0), vr.get("errors", 0)
        smt = j.get("times-ms", {}).get("smt", {}).get("total")
        ok = vr.get("success", False)
    except Exception:
        ok = False
    return {"ok": ok and r.returncode == 0, "diags": diags, "verified": ver, "errors": err, "wall": time.time() - t0, "smt_ms": smt,
            "cmd": " ".join(cmd), "raw": r.stderr[-6000:] if not diags and r.returncode else ""}

# ------------------------------------------------------------------ derived shapes
class DeriveError(Exception):
    """what a derive or define_keywords! generates is not accepted by rustc"""

def expand_shapes(feature="s"):
    """macro-expanded shapes with derive(Parse) (p), derive(ToTokens) (t) or all derives (s)"""
    t = os.path.join(B, "repo-target")
    os.makedirs(t, exist_ok=True)
    out = os.path.join(B, "shapes.%s.expanded.rs" % feature)
    r = sh(["cargo", "rustc", "--manifest-path", os.path.join(V, "shapes", "Cargo.toml"), "--lib", "--offline", "--quiet", "--no-default-features", "--features", feature, "--", "-Zunpretty=expanded"],
           env=env(CARGO_TARGET_DIR=t, RUSTC_BOOTSTRAP="1"))
    if r.returncode or not r.stdout.strip(): raise DeriveError(r.stderr[-3000:])
    open(out, "w").write(r.stdout)
    return out

def expand_kws():
    """macro-expanded define_keywords! modules"""
    out = os.path.join(B, "kws.expanded.rs")
    r = sh(["cargo", "rustc", "--manifest-path", os.path.join(V, "kws", "Cargo.toml"), "--lib", "--offline", "--quiet", "--", "-Zunpretty=expanded"], env=env(CARGO_TARGET_DIR=os.path.join(B, "repo-target"), RUSTC_BOOTSTRAP="1"))
    if r.returncode or not r.stdout.strip(): raise DeriveError(r.stderr[-3000:])
    open(out, "w").write(r.stdout)
    return out

def expand_quotes():
    """macro-expanded uses of try_parse_quote!"""
    out = os.path.join(B, "quotes.expanded.rs")
    r = sh(["cargo", "rustc", "--manifest-path", os.path.join(V, "quotes", "Cargo.toml"), "--lib", "--offline", "--quiet", "--", "-Zunpretty=expanded"], env=env(CARGO_TARGET_DIR=os.path.join(B, "repo-target"), RUSTC_BOOTSTRAP="1"))
    if r.returncode or not r.stdout.strip(): raise DeriveError(r.stderr[-3000:])
    open(out, "w").write(r.stdout)
    return out

def expand_derive():
    """macro-expanded source of parsel_derive"""
    out = os.path.join(B, "derive.expanded.rs")
    r = sh(["cargo", "rustc", "--manifest-path", os.path.join(V, "expand", "Cargo.toml"), "-p", "parsel_derive", "--lib", "--offline", "--quiet", "--", "-Zunpretty=expanded"],
           env=env(CARGO_TARGET_DIR=os.path.join(B, "repo-target"), RUSTC_BOOTSTRAP="1"))
    if r.returncode or not r.stdout.strip(): raise Exception("cannot expand parsel_derive:\n" + r.stderr[-3000:])
    open(out, "w").write(r.stdout)
    return out

def check_shapes(feature):
    """None, or why rustc rejects the derived code"""
    r = sh(["cargo", "build", "--manifest-path", os.path.join(V, "shapes", "Cargo.toml"), "--lib", "--offline", "--quiet", "--no-default-features", "--features", feature],
           env=env(CARGO_TARGET_DIR=os.path.join(B, "repo-target")))
    return r.stderr[:3000] if r.returncode else None

def bounds_crate(d):
    """the declarations of one crate: derives compile, have the bounds of the declaration, and reject what they have to reject"""
    man, src = os.path.join(d, "Cargo.toml"), os.path.join(d, "src", "lib.rs")
    e = env(CARGO_TARGET_DIR=os.path.join(B, "repo-target"), RUSTC_BOOTSTRAP="1")
    r = sh(["cargo", "rustc", "--manifest-path", man, "--lib", "--offline", "--quiet", "--", "-Zunpretty=expanded"], env=e)
    text = open(src).read().split("\n")
    def rejected(err):
        m = re.search(r"^error[^\n]*\n *--> [^\n:]*lib\.rs:(\d+)", err, re.M)
        n = int(m.group(1)) if m else 0
        while n and n < len(text) and text[n - 1].startswith("#["): n += 1
        i = err.find("error")
        return {"input": text[n - 1] if n else "the declarations of %s" % src, "expected": "derived implementations that compile", "got": err[i if i >= 0 else 0:][:1500]}
    if r.returncode or not r.stdout.strip():
        if "could not compile `bounds`" in r.stderr: return 0, 0, rejected(r.stderr)
        raise Exception("cannot expand %s:\n" % d + r.stderr[-2000:])
    out = os.path.join(B, "bounds-%d.expanded.rs" % os.getpid())
    open(out, "w").write(r.stdout)
    req = os.path.join(B, "bounds-%d.json" % os.getpid())
    json.dump({"bounds": {"decls": src, "expanded": out}}, open(req, "w"))
    r = sh([build_vx(), req]); os.unlink(req); os.unlink(out)
    if r.returncode: raise Exception("cannot compare the bounds of %s:\n" % d + r.stderr[-2000:])
    c = json.loads(r.stdout)
    n = len(text)
    k = cargo_check(man, "--lib", e)
    if k.returncode and "could not compile `bounds`" in k.stderr: return c["checked"], n, rejected(k.stderr)
    if c["wrong"]: return c["checked"], n, c["wrong"][0]
    if k.returncode: raise Exception("cannot build %s:\n" % d + k.stderr[-2000:])
    bad = os.path.join(d, "src", "bad.rs")
    k = cargo_check(man, "--bin=bad", e)
    lines = {int(x) for x in re.findall(r"^error[^\n]*\n *--> [^\n:]*bad\.rs:(\d+)", k.stderr, re.M)}
    m = 0
    for i, l in enumerate(open(bad).read().split("\n"), 1):
        if not l.startswith("mod "): continue
        m += 1
        if i not in lines: return c["checked"] + m, n, {"input": l, "expected": "an error", "got": "no error"}
    return c["checked"] + m, n, None

def cargo_check(man, what, e):
    return sh(["cargo", "check", "--manifest-path", man, what, "--offline", "--quiet"], env=e)

def bounds_harness(pid, seed, tier, secs, log):
    """bounded companion of C24"""
    t0 = time.time()
    h = {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "violation": None, "cmd": "cargo check --manifest-path /verif/bounds/Cargo.toml --lib"}
    dirs = [(os.path.join(V, "bounds"), None)] + [(os.path.join(B, "bounds-%d" % s), s) for s in (range(1, 7) if tier == "thorough" else [])]
    for d, s in dirs:
        if s is not None:
            if time.time() - t0 > secs: break
            r = sh([sys.executable, os.path.join(V, "tools", "gen_bounds.py"), str(s), "500", d])
            if r.returncode: raise Exception(r.stderr[-500:])
        try: n, _, v = bounds_crate(d)
        except Exception as e:
            if h["evaluations"]: log("INTERNAL " + str(e)[-800:]); break
            return {"error": str(e)}
        h["evaluations"] += n
        if v: h["violation"] = v; break
    h["distinct_nontrivial"] = h["evaluations"]
    h["samples"] = [l[:300] for l in open(os.path.join(V, "bounds", "src", "lib.rs")) if re.match(r"pub (struct|enum) [DH]", l)][::25]
    return h

def check_quotes():
    """None, or why rustc rejects uses of the quoting macros"""
    r = sh(["cargo", "build", "--manifest-path", os.path.join(V, "quotes", "Cargo.toml"), "--lib", "--offline", "--quiet"], env=env(CARGO_TARGET_DIR=os.path.join(B, "repo-target")))
    return r.stderr[:3000] if r.returncode else None

def load_shapes():
    return json.load(open(os.path.join(V, "shapes", "shapes.json")))

def gparams(s):
    """names of the generic parameters and the <..> with Gram/Print bounds"""
    g = s["generics"].strip()
    names, decl = [], []
    if not g: return names, decl
    for p in g[1:-1].split(","):
        p = p.strip()
        if p.startswith("const"): names.append(p.split()[1].rstrip(":")); decl.append(p)
        else: names.append(p.split(":")[0].split("=")[0].strip()); decl.append(None)
    return names, decl

def gdecl(s, bound):
    names, decl = gparams(s)
    ps = [d if d else n + ": " + bound for n, d in zip(names, decl)]
    return ("<" + ", ".join(ps) + ">") if ps else "", ("<" + ", ".join(names) + ">") if names else ""

def ctor_expr(path, kind, fields, vals):
    if kind == "unit": return path
    if kind == "named": return "%s { %s }" % (path, ", ".join("%s: %s" % (f[0], v) for f, v in zip(fields, vals)))
    return "%s(%s)" % (path, ", ".join(vals))

def seq_spec(path, kind, fields):
    """what a sequence of fields accepts at c"""
    vals = ["v%d" % i for i in range(len(fields))]
    left = " || ".join(["l%d" % i for i in range(len(fields))]) or "false"
    s = "Some((%s, c%d, %s))" % (ctor_expr(path, kind, fields, vals), len(fields), left)
    for i in reversed(range(len(fields))):
        s = "match <%s as Gram>::gram(c%d) { None => None, Some((v%d, c%d, l%d)) => %s }" % (fields[i][1], i, i, i + 1, i, s)
    return s.replace("c0", "c") if fields else s.replace("c0", "c")

def seq_fails(fields, en, ctor):
    s = "false"
    for i in reversed(range(len(fields))):
        f = fields[i]
        name = 'field_named(e.msg, "%s"@)' % f[0] if not f[0].isdigit() else "contains(e.msg, decimal(%s))" % f[0]
        if f[0].startswith("r#"): name = '(contains(e.msg, "%s"@) || contains(e.msg, "%s"@))' % (f[0], f[0][2:])
        elif not f[0].isdigit(): name = 'contains(e.msg, "%s"@)' % f[0]
        here = 'exists|g: ErrV| #[trigger] <%s as Gram>::fails(c%d, g) && e.span == g.span && contains(e.msg, g.msg) && contains(e.msg, "%s"@)%s && %s' % (
            f[1], i, ctor, ' && contains(e.msg, "%s"@)' % en if en else "", name)
        s = "(match <%s as Gram>::gram(c%d) { None => (%s), Some((v%d, c%d, l%d)) => %s })" % (f[1], i, here, i, i + 1, i, s)
    return s.replace("c0", "c")

def shape_wf(fields):
    return " && ".join(["<%s as Gram>::wf()" % t for _, t in fields]) or "true"

def shape_gram(s, flags):
    """Gram impl of a shape, from its declaration; closure contracts for its variants"""
    gd, ga = gdecl(s, "Gram")
    n = s["name"]
    err = "ERR" in flags
    allf = s["fields"] if s["kind"] == "struct" else [f for v in s["variants"] for f in v[2]]
    out = "impl%s Gram for %s%s {\n    open spec fn wf() -> bool { %s }\n" % (gd, n, ga, shape_wf(allf))
    clos, extra = [], ""
    if s["kind"] == "struct":
        out += "    open spec fn gram(c: Cur) -> Option<(Self, Cur, bool)> { %s }\n" % seq_spec(n, s["fkind"], s["fields"])
        if err: out += "    open spec fn fails(c: Cur, e: ErrV) -> bool { %s }\n" % seq_fails(s["fields"], "", n)
        out += "}\n"
        return out, clos
    tf = "::" + ga if ga else ""
    for k, (vn, kind, fields) in enumerate(s["variants"]):
        extra += "pub open spec fn %s_alt%d%s(c: Cur) -> Option<(%s%s, Cur, bool)> { %s }\n" % (n, k, gd, n, ga, seq_spec("%s::%s" % (n, vn), kind, fields))
        if err:
            extra += "pub open spec fn %s_err%d%s(c: Cur, e: ErrV) -> bool { %s }\n" % (n, k, gd, seq_fails(fields, n, vn))
        clos.append("-> (r: Result<%s%s>) requires old({c})@.cur.ok(), <%s%s as Gram>::wf() ensures old({c})@.cur.to(final({c})@.cur), parsed(r, old({c})@, final({c})@, %s_alt%d%s(old({c})@.cur)),%s" % (
            n, ga, n, ga, n, k, tf, " r is Err ==> %s_err%d%s(old({c})@.cur, r->Err_0@)," % (n, k, tf) if err else ""))
    g = "None"
    for k in reversed(range(len(s["variants"]))):
        g = "match %s_alt%d%s(c) { Some(x) => Some(x), None => %s }" % (n, k, tf, g)
    out += "    open spec fn gram(c: Cur) -> Option<(Self, Cur, bool)> { %s }\n" % g
    if err:
        # some alternative's error that ends at least as far as some error of each alternative
        m = len(s["variants"])
        if m == 0: f = "e.span == here(c)"
        else:
            es = ["%s_err%d%s" % (n, k, tf) for k in range(m)]
            f = "(%s) && %s" % (" || ".join("%s(c, e)" % x for x in es), " && ".join("(exists|f: ErrV| #[trigger] %s(c, f) && lc_le(f.span.end, e.span.end))" % x for x in es))
        out += "    open spec fn fails(c: Cur, e: ErrV) -> bool { %s }\n" % f
    out += "}\n"
    return extra + out, clos

# ------------------------------------------------------------------ assembling one proof file
class Asm:
    """pieces of a proof file, with the line range of every function"""
    def __init__(self, cfg, flags=None):
        self.cfg = cfg
        self.flags = set(cfg.get("flags", [])) | set(flags or [])
        self.fns, self.specs = load_spec(cfg["specs"], self.flags)
        self.sources = [(n.split("::")[0], expand_dep(n)) for n in cfg["deps"]] if cfg.get("deps") else [("derive", expand_derive())] if cfg.get("macros") else [("parsel", expand_repo())]
        self.prelude = "".join(preprocess(open(os.path.join(V, "spec", p)).read(), self.flags) + "\n" for p in cfg["preludes"])
        for sp in self.fns.values():
            if "from" not in sp: continue
            h, _, n = sp["from"].partition("|")
            self.prelude, con, ex = take_from(self.prelude, h.strip(), n.strip() or sp["key"].split("::")[-1])
            sp.setdefault("contract", con)
            if ex: sp.setdefault("extra", ex); sp.setdefault("drop", "-")
        self.shapes = []
        if cfg.get("quotes"): self.sources.append(("quotes", expand_quotes()))
        if cfg.get("kws"): self.sources.append(("kws", expand_kws()))
        if cfg.get("shapes"):
            self.sources.append(("shapes", expand_shapes("s" if len(cfg["shapes"]) > 1 or "text" in cfg["shapes"] else "p" if "parse" in cfg["shapes"] else "t")))
            self.shapes = [s for s in load_shapes()]
        only = cfg.get("only")
        # a name in a string selects every function of that type
        self.keys = [k for k in self.fns if only is None or (re.search(r"\b%s\b" % only, k) if isinstance(only, str) else k not in only["exclude"] if isinstance(only, dict) else k in only)]
        reqs = []
        for k in self.keys:
            sp = self.fns[k]
            q = {"key": k, "opts": merge(sp.get("common", {}), json.loads(sp.get("opts", "{}")))}
            for f in ("alt", "module"):
                if f in sp: q[f] = sp[f]
            if "drop" in sp: q["drop_bounds"] = sp["drop"].split()
            reqs.append(q)
        self.shape_specs = ""
        self.shape_of = {}
        for s in self.shapes:
            if "parse" in cfg["shapes"]:
                key = "Parse for %s::parse" % s["name"]
                g, clos = shape_gram(s, self.flags)
                self.shape_specs += g
                sp = {"key": key, "shape": s["name"]}
                for i, c in enumerate(clos): sp["clo_shape %d" % i] = c
                if "ERR" in self.flags:
                    vs = [v[0] for v in s.get("variants", [])]
                    sp["prologue"] = "    broadcast use lc_total;\n" + ("    proof { reveal_strlit(\"%s\"); }\n" % s["name"] if s["kind"] == "enum" else "")
                self.fns[key] = sp
                self.keys.append(key); self.shape_of[key] = s["name"]
                reqs.append({"key": key, "opts": {}, "drop_bounds": ["ToTokens", "Clone", "Debug"]})
            if "print" in cfg["shapes"] and s.get("variants") != []:
                key = "ToTokens for %s::to_tokens" % s["name"]
                self.shape_specs += shape_print(s)
                self.fns[key] = {"key": key, "shape": s["name"], "prologue": "    broadcast use cat_add, cat_none;\n"}
                self.keys.append(key); self.shape_of[key] = s["name"]
                reqs.append({"key": key, "opts": {}, "drop_bounds": ["Parse", "Clone", "Debug"]})
            if "text" in cfg["shapes"]:
                for key, sec in (("FromStr for %s::from_str" % s["name"], {"extra": "    type Err = Error;\n    open spec fn reads(s: Seq<char>, r: Result<Self>) -> bool { whole(s, r) }\n"}),
                                 ("Display for %s::fmt" % s["name"], {"extra": "    open spec fn shown(&self, o: FmtOpts, s: Seq<char>) -> bool { s == node_text(toks_of(self), alt(o)) }\n", "prologue": "    broadcast use tail_of;\n"})):
                    self.fns[key] = dict(sec, key=key, shape=s["name"], drop="y")
                    self.keys.append(key); self.shape_of[key] = s["name"]
                    reqs.append({"key": key, "opts": {}, "drop_bounds": ["Clone", "Debug", "Parse", "ToTokens"]})
        if "RT" in self.flags:
            for s in self.shapes:
                if s.get("variants") != []: self.shape_specs += shape_rt(s)
        self.types = list(cfg.get("types", []))
        # a helper without a contract is put in the place of its call; dependencies are proved as they are
        known = None if cfg.get("deps") else known_names(self.prelude + "".join(self.specs.values()), self.fns)
        d = run_vx(self.sources, reqs, self.types + [s["name"] for s in self.shapes], known)
        self.type_text = ""
        self.missing_types = []
        for t in d["types"]:
            if not t["found"]: self.missing_types.append(t["name"]); continue
            tx = t["text"]
            if cfg.get("deps"): tx = re.sub(r"\b(struct|enum) (Punctuated|IntoIter)\b", r"\1 Syn\2", tx)
            if t["shape"] and t["shape"]["kind"] == "enum" and not t["shape"]["variants"]:
                tx = re.sub(r"\{\s*\}\s*$", "{ VxUninhabited }", tx)   # the verifier rejects empty enums
            self.type_text += tx + "\n"
        self.r = {}
        self.lost, self.unsupported = [], {}
        for k, f in zip(self.keys, d["functions"]):
            if not f["found"]: self.lost.append(k); continue
            self.r[k] = f
            if f["errors"]: self.unsupported[k] = "; ".join(f["errors"])
            sp = self.fns[k]
            nl = len([x for x in sp if x.startswith("loop ")])
            nc = len([x for x in sp if x.startswith("clo_shape ")])
            # the hints belong to a number of loops: any other number is a lost anchor
            if nl != len(f["loops"]) and not (nl == 0 and not f["loops"]): self.unsupported[k] = "loops: %d in the code, %d annotated" % (len(f["loops"]), nl)
            if nc != f["closures"] and nc: self.unsupported[k] = "closures: %d in the code, %d annotated" % (f["closures"], nc)
        self.bind = {k: role_bindings(self.fns[k], self.r[k]) for k in self.r}
        for k, bs in self.bind.items():
            if not bs: bs.append({}); self.unsupported.setdefault(k, "no local fits the hints")
        self.choice = {k: 0 for k in self.r}
        self.undecided = dict(self.unsupported)

    def text(self, without=(), smoke=False):
        """(text, [(first line, last line, key)])"""
        parts = [HEADER]
        parts.append(self.prelude)
        parts.append(self.type_text)
        for n, s in self.specs.items(): parts.append(s)
        parts.append(self.shape_specs)
        line = sum(p.count("\n") for p in parts) + 1
        ranges = []
        for k in self.keys:
            if k not in self.r: continue
            f = self.r[k]
            bs = self.bind[k]
            t = "// %s\n" % k + render_one(self.fns[k], f, bs[self.choice[k] % len(bs)], body=k not in self.undecided)
            if not t.endswith("\n"): t += "\n"
            n = t.count("\n")
            ranges.append((line, line + n - 1, k))
            line += n
            parts.append(t)
        if smoke: parts.append(SMOKE)
        # std::convert::From between machine integers, where it is used
        if any(re.search(r"\b(usize|u32|u64|i64|u16)_from\(", p) for p in parts): parts.append(WIDEN)
        parts.append(FOOTER)
        return unraw("".join(parts)), ranges

SMOKE = "\nproof fn vx_smoke() ensures false { %s }\n"

def shape_print(s):
    """Print impl of a shape: the fields of the value in declaration order"""
    gd, ga = gdecl(s, "Print")
    def cat(xs):
        if not xs: return "Seq::<TT>::empty()"
        return " + ".join("%s.toks()" % x for x in xs)
    if s["kind"] == "struct":
        b = cat(["self." + f[0] for f in s["fields"]])
    else:
        arms = []
        for vn, kind, fields in s["variants"]:
            vs = ["x%d" % i for i in range(len(fields))]
            arms.append("%s => %s" % (ctor_expr(s["name"] + "::" + vn, kind, fields, vs), cat(vs)))
        b = "match self { %s }" % ", ".join(arms)
    return "impl%s Print for %s%s {\n    open spec fn toks(&self) -> Seq<TT> { %s }\n}\n" % (gd, s["name"], ga, b)

def shape_rt(s):
    """C13 for a shape: the lemmas that its print is its input and that its parse depends on the tokens only"""
    n = s["name"]
    allf = s["fields"] if s["kind"] == "struct" else [f for v in s["variants"] for f in v[2]]
    ts = []
    for _, t in allf:
        if t not in ts: ts.append(t)
    gd, ga = gdecl(s, "Eqv")
    alts = [(n, s["fkind"], s["fields"])] if s["kind"] == "struct" else [("%s::%s" % (n, v[0]), v[1], v[2]) for v in s["variants"]]
    arms = []
    for path, kind, fs in alts:
        xs, ys = ["x%d" % i for i in range(len(fs))], ["y%d" % i for i in range(len(fs))]
        arms.append("(%s, %s) => %s" % (ctor_expr(path, kind, fs, xs), ctor_expr(path, kind, fs, ys), " && ".join("<%s as Eqv>::eqv(%s, %s)" % (f[1], x, y) for f, x, y in zip(fs, xs, ys)) or "true"))
    if len(alts) > 1: arms.append("_ => false")
    out = "impl%s Eqv for %s%s { open spec fn eqv(a: Self, b: Self) -> bool { match (a, b) { %s } } }\n" % (gd, n, ga, ", ".join(arms))
    def walk(fs, leaf, two):
        s_ = ""
        for i in reversed(range(len(fs))):
            f = "<%s as Gram>::gram" % fs[i][1]
            if two: s_ = "assert(same(c%d, e%d, %s(c%d), %s(e%d))); match (%s(c%d), %s(e%d)) { (Some((v%d, c%d, l%d)), Some((w%d, e%d, k%d))) => { %s } _ => {} }" % (i, i, f, i, f, i, f, i, f, i, i, i + 1, i, i, i + 1, i, s_)
            else:
                step = "if !(%s) { consumed_cat(c0, c%d, c%d); assert(%s == c0.consumed(c%d)); }" % (" || ".join("l%d" % j for j in range(i + 1)), i, i + 1, " + ".join("v%d.toks()" % j for j in range(i + 1)), i + 1)
                s_ = "assert(rt_is(c%d, %s(c%d))); match %s(c%d) { Some((v%d, c%d, l%d)) => { %s %s } _ => {} }" % (i, f, i, f, i, i, i + 1, i, step, s_)
        return "{ %s }" % s_
    tf = "::" + ga if ga else ""
    for two in (False, True):
        pred = "det" if two else "rt"
        gd2, _ = gdecl(s, "Gram + Eqv" if two else "Gram + Print")
        req = ", ".join("%s::<%s>()" % (pred, t) for t in ts)
        g = "<%s%s as Gram>::gram" % (n, ga)
        goal = "same(c0, e0, #[trigger] %s(c0), #[trigger] %s(e0))" % (g, g) if two else "rt_is(c0, #[trigger] %s(c0))" % g
        vs = "c0: Cur, e0: Cur" if two else "c0: Cur"
        hyp = "alike(c0, e0)" if two else "real(c0)"
        body = ""
        for k, (path, kind, fs) in enumerate(alts):
            w = walk(fs, "", two)
            if s["kind"] == "enum":
                a = "%s_alt%d%s" % (n, k, tf)
                out += "pub proof fn %s_%s_%d%s(%s)\n    requires %s\n    ensures %s\n{\n    broadcast use consumed_none;\n    %s\n}\n" % (
                    pred, n, k, gd2, vs, ", ".join([hyp] + ["%s::<%s>()" % (pred, t) for t in dict.fromkeys(f[1] for f in fs)]),
                    "same(c0, e0, %s(c0), %s(e0))" % (a, a) if two else "rt_is(c0, %s(c0))" % a, w)
                w = "%s_%s_%d%s(%s);" % (pred, n, k, tf, "c0, e0" if two else "c0")
            body += "            " + w + "\n"
        out += "pub proof fn %s_%s%s()\n    %sensures %s::<%s%s>()\n{\n    broadcast use consumed_none;\n    assert forall|%s| %s implies %s by {\n%s    }\n}\n" % (
            pred, n, gd2, "requires %s,\n    " % req if req else "", pred, n, ga, vs, hyp, goal, body)
    return out
