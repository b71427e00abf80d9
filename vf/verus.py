"""Runs Verus on a unit: ghost text from /verif/units around functions taken from /repo/src on this run."""
import json
import os
import re
import subprocess
import tempfile
import time
from . import macros
from .rust import Src, Fn, LostAnchor, lex, match_close

REPO = os.environ.get("VF_REPO", "/repo")
VERUS = "verus"


# the verifier compares a String with a literal by identity; this compares what they hold
TEXT_IS = """
pub trait TextIs { spec fn tchars(&self) -> Seq<char>; fn text_is(&self, s: &str) -> (r: bool) ensures r == (self.tchars() == s@); }
impl TextIs for str { open spec fn tchars(&self) -> Seq<char> { self@ } #[verifier::external_body] fn text_is(&self, s: &str) -> (r: bool) { unimplemented!() } }
impl TextIs for String { open spec fn tchars(&self) -> Seq<char> { self@ } #[verifier::external_body] fn text_is(&self, s: &str) -> (r: bool) { unimplemented!() } }
"""

INTS = [u + n for u in "ui" for n in ("8", "16", "32", "64", "128")]
CONV_TO = """
pub trait ConvTo<T>: Sized { spec fn becomes(self, r: T) -> bool; fn conv_to(self) -> (r: T) ensures self.becomes(r); }
impl ConvTo<String> for &str { open spec fn becomes(self, r: String) -> bool { r@ == self@ } #[verifier::external_body] fn conv_to(self) -> (r: String) { unimplemented!() } }
impl ConvTo<String> for &String { open spec fn becomes(self, r: String) -> bool { r@ == self@ } #[verifier::external_body] fn conv_to(self) -> (r: String) { unimplemented!() } }
impl ConvTo<String> for String { open spec fn becomes(self, r: String) -> bool { r == self } fn conv_to(self) -> (r: String) { self } }
impl ConvTo<u32> for char { open spec fn becomes(self, r: u32) -> bool { r == self as u32 } fn conv_to(self) -> (r: u32) { self as u32 } }
impl ConvTo<char> for u8 { open spec fn becomes(self, r: char) -> bool { r == self as char } fn conv_to(self) -> (r: char) { self as char } }
""" + "\n".join(
    f"impl ConvTo<{t}> for {a} {{ open spec fn becomes(self, r: {t}) -> bool {{ r == self }} fn conv_to(self) -> (r: {t}) {{ self as {t} }} }}"
    for a in INTS for t in INTS if a == t or (int(a[1:]) < int(t[1:]) and not (a[0] == "i" and t[0] == "u"))
) + "\n"
TO_TEXT = """
pub trait ToText { spec fn as_text(&self) -> Seq<char>; fn to_text(&self) -> (r: String) ensures r@ == self.as_text(); }
impl ToText for str { open spec fn as_text(&self) -> Seq<char> { self@ } #[verifier::external_body] fn to_text(&self) -> (r: String) { unimplemented!() } }
impl ToText for String { open spec fn as_text(&self) -> Seq<char> { self@ } #[verifier::external_body] fn to_text(&self) -> (r: String) { unimplemented!() } }
impl ToText for char { open spec fn as_text(&self) -> Seq<char> { seq![*self] } #[verifier::external_body] fn to_text(&self) -> (r: String) { unimplemented!() } }
"""
WHOLE = """
pub trait Whole { type Of: ?Sized; spec fn is_whole(&self, r: &Self::Of) -> bool; fn whole(&self) -> (r: &Self::Of) ensures self.is_whole(r); }
impl Whole for str { type Of = str; open spec fn is_whole(&self, r: &str) -> bool { r@ == self@ } #[verifier::external_body] fn whole(&self) -> (r: &str) { unimplemented!() } }
impl Whole for String { type Of = str; open spec fn is_whole(&self, r: &str) -> bool { r@ == self@ } #[verifier::external_body] fn whole(&self) -> (r: &str) { unimplemented!() } }
impl<T> Whole for [T] { type Of = [T]; open spec fn is_whole(&self, r: &[T]) -> bool { r@ == self@ } #[verifier::external_body] fn whole(&self) -> (r: &[T]) { unimplemented!() } }
impl<T> Whole for Vec<T> { type Of = [T]; open spec fn is_whole(&self, r: &[T]) -> bool { r@ == self@ } #[verifier::external_body] fn whole(&self) -> (r: &[T]) { unimplemented!() } }
"""
# how many things there are: contracts of u_value for Composite, and of scale_bits
COUNTED = """
pub trait Counted { spec fn counted(&self) -> nat; fn is_empty(&self) -> (r: bool) ensures r == (self.counted() == 0); fn len(&self) -> (r: usize) ensures r == self.counted(); }
impl<T> Counted for Composite<T> { open spec fn counted(&self) -> nat { match *self { Composite::Named(v) => v@.len(), Composite::Unnamed(v) => v@.len() } } #[verifier::external_body] fn is_empty(&self) -> (r: bool) { unimplemented!() } #[verifier::external_body] fn len(&self) -> (r: usize) { unimplemented!() } }
impl Counted for BitSequence { open spec fn counted(&self) -> nat { self.bits().len() } #[verifier::external_body] fn is_empty(&self) -> (r: bool) { unimplemented!() } #[verifier::external_body] fn len(&self) -> (r: usize) { unimplemented!() } }
"""
# standard library calls that the verifier accepts without knowing what they do, written as calls of the traits above
HELPERS = ((TEXT_IS, ".text_is("), (CONV_TO, "conv_to("), (TO_TEXT, ".to_text("), (WHOLE, ".whole("))


class Builder:
    """Handed to a unit's build function: reads /repo, collects the text of the Verus file."""

    def __init__(self, repo=REPO, vacuity=False):
        self.repo, self.vacuity = repo, vacuity
        self.parts = []
        self.fns = []  # real functions under contract
        self.rewrites = []
        self.probes = []
        self.cache = {}

    def src(self, name):
        if name not in self.cache:
            self.cache[name] = Src(os.path.join(self.repo, name), name)
        return self.cache[name]

    def src_expanded(self, name):
        """with the file's own macros written out"""
        key = name + " (expanded)"
        if key not in self.cache:
            self.cache[key] = macros.expand(self.src(name))
        return self.cache[key]

    def emit(self, text):
        self.parts.append(text.rstrip() + "\n")

    def consts(self, *srcs):
        """the numeric and bool constants at the top level of these files"""
        seen = set()
        for s in srcs:
            for m in re.finditer(r"^(?:pub(?:\([^)]*\))? )?const (\w+): (usize|[ui](?:8|16|32|64|128)|bool) = ([^;]*);", s.text, re.M):
                if m[1] not in seen:
                    seen.add(m[1])
                    self.emit(f"pub const {m[1]}: {m[2]} = {m[3]};")

    def fn(self, f: Fn, label=None):
        """emit an extracted function"""
        string_patterns(f)
        std_calls(f)
        opaque(f)
        self.fns.append(f"{f.file}: {label or f.name}")
        self.rewrites += [f"{f.name}: {a}" for a in f.applied]
        self.parts.append(f.text(self.probes if self.vacuity else None))

    def text(self):
        body = "\n".join(self.parts)
        if "enum Composite<T>" in body and "struct BitSequence" in body:
            body = COUNTED + body
        return (
            "#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_braces, unreachable_code, unreachable_patterns, unused_assignments, non_snake_case)]\n"
            "use vstd::prelude::*;\nverus! {\n" + "".join(h for h, call in HELPERS if call in body) + body + "\n} // verus!\nfn main() {}\n"
        )


def string_patterns(f):
    """matches!(x, "a" | "b") is written as comparisons; the verifier compares string patterns by identity, not by content"""
    for _ in range(20):
        ts = lex(f.body)
        for i, t in enumerate(ts):
            if t.s != "matches" or ts[i + 1].s != "!":
                continue
            c = match_close(ts, i + 2)
            commas = [k for k in range(i + 3, c) if ts[k].s == "," and depth(ts, i + 3, k) == 0]
            if len(commas) != 1 and not (len(commas) == 2 and commas[1] == c - 1):
                continue
            alts = ts[commas[0] + 1 : (commas[1] if len(commas) == 2 else c)]
            if alts and all(a.k == "str" if n % 2 == 0 else a.s == "|" for n, a in enumerate(alts)):
                x = f.body[ts[i + 3].a : ts[commas[0] - 1].b]
                f.body = f.body[: t.a] + "(" + " || ".join(f"({x}) == {a.s}" for a in alts if a.k == "str") + ")" + f.body[ts[c].b :]
                f.applied.append("matches! on string literals  ==>  comparisons")
                break
        else:
            break
    edits = []
    ts = lex(f.body)
    for i, t in enumerate(ts):
        if t.k == "str" and i >= 2 and ts[i - 1].s in ("==", "!=") and ts[i - 2].k == "id" and (i + 1 == len(ts) or ts[i + 1].s not in ("@", ".")):
            a = i - 2
            while a >= 2 and ts[a - 1].s == "." and ts[a - 2].k == "id":
                a -= 2
            if a and ts[a - 1].s in (".", "@", "::"):
                continue
            b = a
            while b and ts[b - 1].s == "*":
                b -= 1
            edits.append((ts[b].a, t.b, ("!" if ts[i - 1].s == "!=" else "") + f"{f.body[ts[a].a : ts[i - 2].b]}.text_is({t.s})"))
    for a, b, new in reversed(edits):
        f.applied.append(f"{f.body[a:b]}  ==>  {new}")
        f.body = f.body[:a] + new + f.body[b:]
    ts = lex(f.body)
    for i, t in enumerate(ts[:-1]):
        j = None
        if t.k == "id" and t.s == "let":
            j = next((k for k in range(i, len(ts)) if ts[k].s in ("=", ";")), i)
        elif t.s == "matches" and ts[i + 1].s == "!":
            j = match_close(ts, i + 2)
            i = next(k for k in range(i + 3, j) if ts[k].s == "," and depth(ts, i + 3, k) == 0)
        if j and any(x.k == "str" for x in ts[i:j]):
            raise LostAnchor(f"{f.name} matches on string literals")
    for n in range(20):
        ts = lex(f.body)
        at = next((p for p in (arm(ts, i) for i, t in enumerate(ts) if t.k == "str") if p), None)
        if at is None:
            return
        lit, guard = at
        if guard is None:
            raise LostAnchor(f"{f.name} matches on string literals")
        t, g = ts[lit], ts[guard]
        cond = f"text{n}_.text_is({t.s})"
        tail = f.body[g.a :] if g.s == "=>" else "(" + f.body[g.b : ts[end_of_guard(ts, guard)].a] + ") " + f.body[ts[end_of_guard(ts, guard)].a :]
        f.applied.append(f"pattern {t.s}  ==>  a binding with a guard")
        f.body = f.body[: t.a] + f"text{n}_" + f.body[t.b : g.a] + f"if {cond} " + ("&& " if g.s == "if" else "") + tail


def arm(ts, i):
    """the string literal ts[i] stands in the pattern of a match arm: (i, index of its `=>` or `if`), or (i, None) if it is one of several alternatives"""
    lo, hi = i, i
    if ts[hi + 1 : hi + 2] and ts[hi + 1].s == "@":
        return None
    while True:
        d, k = 0, lo - 1
        while k >= 0 and (d or ts[k].s not in ("(", "{", "[")):
            d += 1 if ts[k].s in (")", "}", "]") else -1 if ts[k].s in ("(", "{", "[") else 0
            k -= 1
        if k < 0 or ts[k].s != "(":
            break
        lo, hi = k, match_close(ts, k)
    alts = False
    k = hi + 1
    while k < len(ts) and ts[k].s == "|":
        alts = True
        k += 1
        k = match_close(ts, k) + 1 if k < len(ts) and ts[k].s in ("(", "[", "{") else k + 1
    if k >= len(ts) or ts[k].s not in ("=>", "if") or ts[lo - 1].s in ("=", "return"):
        return None
    if ts[k].s == "if" and end_of_guard(ts, k) is None:
        return None
    a = lo - 1
    while a >= 0 and (ts[a].k == "id" and ts[a].s not in ("match", "if") or ts[a].s == "::"):
        a -= 1
    if ts[a].s not in ("{", "}", ",", "|"):
        return None
    if ts[a].s == "|" or any(t.s == "|" for t in ts[lo:hi]):
        alts = True
    return (i, None if alts else k)


def end_of_guard(ts, k):
    d = 0
    for j in range(k + 1, len(ts)):
        if ts[j].s in ("(", "{", "["):
            d += 1
        elif ts[j].s in (")", "}", "]"):
            d -= 1
            if d < 0:
                return None
        elif ts[j].s == "=>" and d == 0:
            return j
    return None


SCALAR = r"(?:[ui]?(?:len|pos|idx|index|offset|count|size|n|c|ch|char|start|end|at)|\w+_(?:len|idx|index|loc|offset|count|chars|pos|n))"


def std_calls(f):
    """what the standard library does to texts, integers and lists: either said in terms of a contract, or the function is given up"""
    ranges = r"\((b?'[^']+'|\w+)\s*\.\.=\s*(b?'[^']+'|\w+)\)\s*\.contains\(&(\w+)\)"
    f.sub_text(ranges, r"(\1 <= \3 && \3 <= \2)")
    f.sub_text(r"\.into\(\)", ".conv_to()")
    f.sub_text(rf"(?<![\w:])(String|char|{'|'.join(INTS)})::from\(", r"ConvTo::<\1>::conv_to(")
    if ".as_str().to_string()" not in f.body or f.body.count(".to_string()") != f.body.count(".as_str().to_string()"):
        f.sub_text(r"(?<=[\w)])(?<!as_str\(\))(?<!checked\"\))\.to_string\(\)", ".to_text()")
    f.sub_text(r"&(\w+(?:\.\w+)*)\s*\[\s*\.\.\s*\]", r"\1.whole()")
    for what, how in (("a conversion", r"\.try_into\(|::try_from\(|[\w>]::from\("), ("format!", r"\bformat!|\bwrite!"), ("a search", r"\.contains\("), ("a comparison", r"\.(?:eq|ne)\(")):
        if any(m and m.group(0) in f.source() for m in re.finditer(how, f.body)):
            raise LostAnchor(f"{f.name}: {what} the verifier knows nothing about")
    ts = lex(f.source())
    now = " ".join(t.s for t in lex(f.body))
    for i, t in enumerate(ts):
        if t.s in ("==", "!=") and 0 < i < len(ts) - 1:
            j = i + 1
            while ts[j].s in ("&", "*", "-"):
                j += 1
            a, b = ts[i - 1], ts[j]
            if any(x.k in ("char", "num") or x.s in ("true", "false", "Some", "None", "PrimitiveType", "Primitive") or re.fullmatch(SCALAR, x.s) for x in (a, b)):
                continue
            if a.s == ")" and ts[i - 2].s == "(" and re.fullmatch(SCALAR, ts[i - 3].s):
                continue
            if f" {a.s} {t.s} {ts[i + 1].s} " in f" {now} ":
                raise LostAnchor(f"{f.name}: a comparison the verifier knows nothing about")


def opaque(f):
    """constructs the verifier accepts but knows nothing about: where one is left after the rewrites, a failed obligation would say nothing about the code"""
    ts = lex(f.body)
    for i, t in enumerate(ts):
        if t.k == "id" and t.s in ("loop", "while", "for") and not (t.s == "for" and i + 1 < len(ts) and ts[i + 1].s == "<"):
            if not any(w in f.body[t.a : f.body.find("{", t.a) + 1] for w in ("invariant", "decreases", "ensures")):
                raise LostAnchor(f"{f.name}: a loop without a contract")
        if t.k == "id" and t.s == "fn" and i + 1 < len(ts) and ts[i + 1].k == "id" and (i == 0 or ts[i - 1].s not in ("spec", "proof")):
            if "ensures" not in f.body[t.a : f.body.find("{", t.a) + 1]:
                raise LostAnchor(f"{f.name}: an inner function without a contract")
    if "bit_vector" not in f.body and "use_bits" not in f.body and re.search(r"<<|\s>>=?\s+[\w(]|\s\^=?\s", f.body):
        raise LostAnchor(f"{f.name}: bit operations")
    if re.search(r"[(,=]\s*(?:move\s*)?\|\s*(?:mut\s+)?(?:&?\w+|&?\([\w\s,&]*\))(?:\s*,\s*&?\w+)*\s*\|(?!\|)|[(,=]\s*(?:move\s*)?\|\|(?!\s*->)", f.body):
        raise LostAnchor(f"{f.name}: a closure without a contract")


def depth(ts, a, k):
    return sum(1 if t.s in "([{" else -1 if t.s in ")]}" else 0 for t in ts[a:k] if len(t.s) == 1)


def trusted(text):
    """mechanical scan for what is assumed"""
    out = []
    code = re.sub(r"//[^\n]*", "", text)
    for m in re.finditer(r"assume_specification\s*(?:<[^;]*?>)?\s*\[\s*([^\]]+?)\s*\]\s*\(", code, re.S):
        out.append("assumed contract: " + " ".join(m.group(1).split()))
    for m in re.finditer(r"#\[verifier::(external_body|external_type_specification|external_trait_specification|external)\b[^\]]*\]\s*(?:#\[[^\]]*\]\s*)*(?:pub\s*(?:\([^)]*\))?\s*)?(?:uninterp\s+|open\s+|closed\s+|broadcast\s+|axiom\s+|const\s+)*(fn|proof fn|spec fn|struct|trait|enum)\s+(\w+)", code, re.S):
        out.append(f"{m.group(1)}: {m.group(2)} {m.group(3)}")
    for m in re.finditer(r"\baxiom fn\s+(\w+)", code):
        out.append("axiom: " + m.group(1))
    for m in re.finditer(r"\buninterp spec fn\s+(\w+)", code):
        out.append("uninterpreted: " + m.group(1))
    n = len(re.findall(r"\bassume\s*\(", code))
    if n:
        out.append(f"assume statements: {n}")
    n = len(re.findall(r"\badmit\s*\(", code))
    if n:
        out.append(f"admit statements: {n}")
    n = len(re.findall(r"exec_allows_no_decreases_clause", code))
    if n:
        out.append(f"termination not proved: {n} functions")
    return out


def enclosing(lines, ln):
    """name of the function that line ln of the generated file is in"""
    for i in range(ln - 1, -1, -1):
        m = re.search(r"\bfn\s+(\w+)", lines[i])
        if m:
            return m.group(1)
    return "?"


SPLIT = re.compile(r"^(error(?:\[[^\]]*\])?): (.*)$", re.M)


def run_verus(text, rlimit=60, threads=4, timeout=600, keep=None, extra=()):
    """-> dict(status=ok|failed|undecided|unsupported, verified, errors=[...], ...)"""
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "unit.rs")
        with open(path, "w") as f:
            f.write(text)
        if keep:
            with open(keep, "w") as f:
                f.write(text)
        t0 = time.time()
        try:
            p = subprocess.run(
                [VERUS, path, "--output-json", "--time-expanded", "--multiple-errors", "60", "--rlimit", str(rlimit), "--num-threads", str(threads), *extra],
                capture_output=True, text=True, timeout=timeout, cwd=d)
        except subprocess.TimeoutExpired:
            return dict(status="undecided", verified=0, errors=[], why="verus timed out", wall=time.time() - t0, smt_ms=0, stderr="")
        wall = time.time() - t0
    try:
        j = json.loads(p.stdout[p.stdout.index("{"):])
    except ValueError:
        j = {}
    vr = j.get("verification-results")
    err = p.stderr
    lines = text.split("\n")
    errors = []
    ms = list(SPLIT.finditer(err))
    for k, m in enumerate(ms):
        body = err[m.start(): ms[k + 1].start() if k + 1 < len(ms) else len(err)]
        msg = m.group(2)
        if msg.startswith("aborting due to"):
            continue
        lm = re.search(r"unit\.rs:(\d+):", body)
        ln = int(lm.group(1)) if lm else 0
        # the lines that are marked in the excerpt
        marked = [int(x) for x in re.findall(r"^\s*(\d+)\s*\|", body, re.M)]
        errors.append(dict(msg=msg, line=ln, fn=enclosing(lines, ln) if ln else "?", code=lines[ln - 1].strip() if ln else "", text=body.rstrip(), code_code=m.group(1), marked=marked))
    smt = 0
    try:
        smt = j["times-ms"]["smt"]["smt-run"]
    except KeyError:
        pass
    base = dict(errors=errors, wall=wall, smt_ms=smt, stderr=err[-20000:])
    if not vr or vr.get("encountered-vir-error") or any(e["code_code"] != "error" for e in errors):
        return dict(status="unsupported", verified=0, why=(errors[0]["msg"] if errors else "verus did not run"), **base)
    v, e = vr.get("verified", 0), vr.get("errors", 0)
    if vr.get("success") and e == 0:
        return dict(status="ok", verified=v, why="", **base)
    # only failures of obligations, not of the tool
    toolish = [x for x in errors if "rlimit" in x["msg"].lower() or "resource limit" in x["msg"].lower() or "timed out" in x["msg"]]
    real = [x for x in errors if x not in toolish and is_obligation(x["msg"])]
    if not real:
        return dict(status="undecided", verified=v, why=(errors[0]["msg"] if errors else "no verdict"), **base)
    base["errors"] = real
    return dict(status="failed", verified=v, failed=e, why="", **base)


OBL = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied", "decreases not satisfied", "possible arithmetic",
       "recommendation not met", "assertion not satisfied", "unable to prove", "unreachable", "possible division", "loop", "index out", "possible", "could not", "failed")


def is_obligation(msg):
    m = msg.lower()
    return any(o in m for o in OBL)
