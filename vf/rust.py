"""A small Rust lexer, and token-level search and rewriting, used to take functions out of /repo."""
import re


class LostAnchor(Exception):
    """A function, loop or expression that a unit refers to is not in the source as expected."""


TOK = re.compile(
    r"""(?P<ws>\s+|//[^\n]*|/\*(?:[^*]|\*(?!/))*\*/)
|(?P<raw>b?r(?P<h>\#*)".*?"(?P=h))
|(?P<str>b?"(?:\\.|[^"\\])*")
|(?P<chr>b?'(?:\\u\{[0-9a-fA-F_]+\}|\\x[0-9a-fA-F]{2}|\\.|[^'\\])')
|(?P<life>'[A-Za-z_]\w*)
|(?P<num>\d[\w]*(?:\.\d[\w]*)?)
|(?P<id>(?:r\#)?[A-Za-z_]\w*)
|(?P<op>\.\.=|\.\.\.|<<=|>>=|::|->|=>|==|!=|<=|>=|&&|\|\||\.\.|\+=|-=|\*=|/=|%=|\^=|&=|\|=|[{}()\[\];,.<>=+\-*/%!&|^?:@\#$~\\])
""",
    re.X | re.S,
)
OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = {v: k for k, v in OPEN.items()}


class T:
    __slots__ = ("k", "s", "a", "b")

    def __init__(self, k, s, a, b):
        self.k, self.s, self.a, self.b = k, s, a, b

    def __repr__(self):
        return self.s


def lex(src, keep_ws=False):
    out, i = [], 0
    while i < len(src):
        m = TOK.match(src, i)
        if not m:
            raise LostAnchor(f"cannot read the source at {src[i:i+30]!r}")
        k = m.lastgroup if m.lastgroup != "h" else "raw"
        if m.group("raw") is not None:
            k = "raw"
        if k != "ws" or keep_ws:
            out.append(T(k, m.group(0), i, m.end()))
        i = m.end()
    return out


def match_close(toks, i):
    """index of the bracket that closes toks[i]"""
    st = []
    for j in range(i, len(toks)):
        s = toks[j].s
        if toks[j].k != "op":
            continue
        if s in OPEN:
            st.append(OPEN[s])
        elif s in CLOSE:
            if not st or st.pop() != s:
                raise LostAnchor("unbalanced brackets")
            if not st:
                return j
    raise LostAnchor("unbalanced brackets")


def _pat(p):
    """pattern text -> list of ('lit', s) | ('var', name, kind)"""
    out = []
    toks = lex(p)
    i = 0
    while i < len(toks):
        t = toks[i]
        if t.s == "$" and i + 1 < len(toks) and toks[i + 1].k == "id":
            name = toks[i + 1].s
            kind = "seq"
            if i + 3 < len(toks) and toks[i + 2].s == ":" and toks[i + 3].s in ("ident", "tok", "rest"):
                kind = toks[i + 3].s
                i += 2
            out.append(("var", name, kind))
            i += 2
        else:
            out.append(("lit", t.s))
            i += 1
    return out


def _m(pat, pi, toks, ti, env):
    """backtracking matcher; returns end index or None"""
    while pi < len(pat):
        p = pat[pi]
        if p[0] == "lit":
            if ti >= len(toks) or toks[ti].s != p[1]:
                return None
            ti += 1
            pi += 1
            continue
        _, name, kind = p
        if kind in ("ident", "tok"):
            if ti >= len(toks) or (kind == "ident" and toks[ti].k != "id"):
                return None
            if name in env and [t.s for t in env[name]] != [toks[ti].s]:
                return None
            env[name] = [toks[ti]]
            ti += 1
            pi += 1
            continue
        if kind == "rest":
            # up to the end of the enclosing group, or a comma or semicolon in it
            j = ti
            while j < len(toks) and not (toks[j].k == "op" and toks[j].s in (")", "]", "}", ",", ";")):
                j = match_close(toks, j) + 1 if toks[j].k == "op" and toks[j].s in OPEN else j + 1
            env[name] = toks[ti:j]
            ti = j
            pi += 1
            continue
        # lazy balanced sequence
        j = ti
        while True:
            e2 = dict(env)
            seq = toks[ti:j]
            if name not in env or [t.s for t in env[name]] == [t.s for t in seq]:
                e2[name] = seq
                r = _m(pat, pi + 1, toks, j, e2)
                if r is not None:
                    env.clear()
                    env.update(e2)
                    return r
            if j >= len(toks):
                return None
            s = toks[j].s
            if toks[j].k == "op" and s in CLOSE:
                return None
            if toks[j].k == "op" and s in OPEN:
                j = match_close(toks, j) + 1
            else:
                j += 1
    return ti


def find_all(src, pattern, limit=None):
    pat = _pat(pattern)
    toks = lex(src)
    out, i = [], 0
    while i < len(toks):
        env = {}
        e = _m(pat, 0, toks, i, env)
        if e is not None and e > i:
            out.append((toks[i].a, toks[e - 1].b, {k: (src[v[0].a : v[-1].b] if v else "") for k, v in env.items()}))
            i = e
            if limit and len(out) >= limit:
                break
        else:
            i += 1
    return out


def rewrite(src, pattern, template, count=None, minimum=1):
    """Replace every match of the pattern. template: text with $name holes, or a function of the bindings.
    count: exact number of matches wanted."""
    ms = find_all(src, pattern)
    if (count is not None and len(ms) != count) or len(ms) < minimum:
        raise LostAnchor(f"expected {count if count is not None else 'some'} of `{pattern}`, found {len(ms)}")
    for a, b, env in reversed(ms):
        if callable(template):
            rep = template(env)
        else:
            rep = re.sub(r"\$(\w+)", lambda m: env[m.group(1)] if m.group(1) in env else m.group(0), template)
        src = src[:a] + rep + src[b:]
    return src


def strip_comments(src):
    return "".join(("\n" if "\n" in t.s else " ") if t.k == "ws" and t.s.startswith("/") else t.s for t in lex(src, True))


def strip_attrs(src):
    """remove #[...] attributes"""
    toks = lex(src)
    cuts = []
    i = 0
    while i < len(toks):
        if toks[i].s == "#" and i + 1 < len(toks) and toks[i + 1].s == "[":
            j = match_close(toks, i + 1)
            cuts.append((toks[i].a, toks[j].b))
            i = j + 1
        else:
            i += 1
    for a, b in reversed(cuts):
        src = src[:a] + src[b:]
    return src


class Src:
    """One source file, its test modules dropped."""

    def __init__(self, path, name):
        self.name = name
        try:
            text = open(path, encoding="utf8").read()
        except OSError:
            raise LostAnchor(f"{name} is gone")
        text = strip_comments(text)
        self.text = text
        self.toks = lex(text)

    def body_span(self, i):
        """from the token i of an item: its body braces (token indices)"""
        j = i
        while j < len(self.toks):
            s = self.toks[j].s
            if s in ("(", "[") and self.toks[j].k == "op":
                j = match_close(self.toks, j) + 1
                continue
            if s == "{":
                return j, match_close(self.toks, j)
            if s == ";":
                return j, j
            j += 1
        raise LostAnchor("no body")

    def impls(self):
        """[(header text, open, close)] of all impl blocks and macro-free modules"""
        out = []
        i = 0
        while i < len(self.toks):
            t = self.toks[i]
            if t.k == "id" and t.s == "impl" and (i == 0 or self.toks[i - 1].s in ("}", ";", "]", "unsafe", "{", ")")):
                o, c = self.body_span(i)
                hdr = self.text[t.a : self.toks[o].a].strip()
                out.append((" ".join(hdr.split()), o, c))
                i = o + 1
            else:
                i += 1
        return out

    def find_fn(self, name, within=None, nth=0):
        """the text of `fn name`. within: text that the impl header must contain, or '' for top level."""
        toks = self.toks
        spans = self.impls()
        tests = []
        for i, t in enumerate(toks):
            if t.s == "mod" and i + 1 < len(toks) and toks[i + 1].s in ("test", "tests"):
                tests.append(self.body_span(i))
        hits = []
        for i, t in enumerate(toks):
            if t.k == "id" and t.s == "fn" and i + 1 < len(toks) and toks[i + 1].s == name:
                if any(a < i < b for a, b in tests):
                    continue
                inside = [h for h, o, c in spans if o < i < c]
                if within is not None:
                    if within == "":
                        if inside:
                            continue
                    elif not inside or within not in inside[-1]:
                        continue
                o, c = self.body_span(i)
                a = i
                while a > 0 and toks[a - 1].s in ("pub", "const", "unsafe", ")", "crate", "(", "super"):
                    if toks[a - 1].s == ")" and not (toks[a - 2].s in ("crate", "super") and toks[a - 4].s == "pub"):
                        break
                    if toks[a - 1].s == "(" and toks[a - 2].s != "pub":
                        break
                    a -= 1
                hits.append(self.text[toks[a].a : toks[c].b])
        if len(hits) <= nth:
            raise LostAnchor(f"no `fn {name}`{' in ' + within if within else ''} in {self.name}")
        return Fn(name, hits[nth], self.name)

    def find_item(self, kind, name):
        """a struct, enum, const, trait or macro_rules item"""
        toks = self.toks
        for i, t in enumerate(toks):
            if t.s == kind and i + 1 < len(toks):
                j = i + 1
                if kind == "macro_rules" and toks[j].s == "!":
                    j += 1
                if toks[j].s == name:
                    k = j
                    o, c = self.body_span(j)
                    a = i
                    while a > 0 and toks[a - 1].s == "pub":
                        a -= 1
                    return strip_attrs(self.text[toks[a].a : toks[c].b])
        raise LostAnchor(f"no {kind} {name} in {self.name}")

    def find_expr(self, pattern):
        ms = find_all(self.text, pattern)
        if len(ms) != 1:
            raise LostAnchor(f"expected one `{pattern}` in {self.name}, found {len(ms)}")
        return ms[0][2]


class Fn:
    def __init__(self, name, text, file):
        self.name, self.file = name, file
        self.orig = text
        text = strip_attrs(text)
        toks = lex(text)
        j = 0
        # the body is the first { after the parameter list
        o = None
        i = 0
        while i < len(toks):
            if toks[i].k == "op" and toks[i].s in ("(", "["):
                i = match_close(toks, i) + 1
                continue
            if toks[i].s == "{":
                o = i
                break
            i += 1
        if o is None:
            raise LostAnchor(f"{name} has no body")
        self.sig = text[: toks[o].a].strip()
        self.body = text[toks[o].a + 1 : toks[match_close(toks, o)].a]
        self.written = self.body
        self.contract_text = ""
        self.attrs = ""
        self.applied = []

    def source(self):
        """the body as it stands in the source"""
        return self.written

    def sub_text(self, regex, new):
        self.body, n = re.subn(regex, new, self.body)
        if n:
            self.applied.append(f"/{regex}/  ==>  {new}")
        return self

    # --- rewriting -----------------------------------------------------
    def sub(self, pattern, template, count=None, minimum=1):
        self.body = rewrite(self.body, pattern, template, count, minimum)
        self.applied.append(f"{pattern}  ==>  {template if isinstance(template, str) else '<computed>'}")
        return self

    def sub_opt(self, pattern, template):
        return self.sub(pattern, template, minimum=0)

    def sub_sig(self, pattern, template, minimum=1):
        self.sig = rewrite(self.sig, pattern, template, None, minimum)
        self.applied.append(f"signature: {pattern}  ==>  {template}")
        return self

    def mut_self(self):
        """`mut self` is a local that starts as self"""
        self.sub_sig("mut self", "self")
        toks = lex(self.body)
        for t in reversed(toks):
            if t.k == "id" and t.s == "self":
                self.body = self.body[: t.a] + "__self" + self.body[t.b :]
        self.body = " let mut __self = self; " + self.body
        self.applied.append("mut self  ==>  let mut __self = self;")
        return self

    def result(self, name="r"):
        """name the result: the last -> of the signature outside brackets"""
        toks = lex(self.sig)
        i, at, w = 0, None, None
        while i < len(toks):
            if toks[i].k == "op" and toks[i].s in OPEN:
                i = match_close(toks, i) + 1
                continue
            if toks[i].s == "->":
                at = toks[i]
            if toks[i].s == "where":
                w = toks[i].a
                break
            i += 1
        if at is not None:
            end = len(self.sig) if w is None else w
            self.sig = self.sig[: at.b] + f" ({name}: " + self.sig[at.b : end].strip() + ") " + self.sig[end:]
        return self

    def contract(self, text):
        self.contract_text = text
        return self

    def attr(self, text):
        self.attrs += text + "\n"
        return self

    def prelude(self, text):
        """ghost code at the start of the body"""
        self.body = "\n" + text + "\n" + self.body
        return self

    def postlude_before(self, pattern, text, count=1):
        self.body = rewrite(self.body, pattern, lambda env: text + " " + "__KEEP__", count)
        return self

    def loops(self):
        """[(keyword offset, brace offset)] of loops in the body in order"""
        toks = lex(self.body)
        out = []
        for i, t in enumerate(toks):
            if t.k == "id" and t.s in ("loop", "while", "for"):
                if t.s == "for" and i + 1 < len(toks) and toks[i + 1].s == "<":
                    continue
                j = i + 1
                while j < len(toks) and toks[j].s != "{":
                    if toks[j].s in ("(", "["):
                        j = match_close(toks, j)
                    j += 1
                out.append((t.a, toks[j].a, t.s))
        return out

    def loop(self, n, inv, total=None):
        ls = self.loops()
        if (total is not None and len(ls) != total) or n >= len(ls):
            raise LostAnchor(f"{self.name}: expected {total} loops, found {len(ls)}")
        a, b, _ = ls[n]
        self.body = self.body[:b] + "\n" + inv + "\n" + self.body[b:]
        return self

    def text(self, vacuity=None):
        body = self.body
        if vacuity is not None:
            spots = [b for _, b, _ in self.loops()]
            toks = lex(body)
            # loop bodies: insert after the brace that opens the body (after any invariant text)
            for b in reversed(spots):
                # find the real opening brace: invariants may contain braces, so loops() already points at the
                # first brace; units put invariants before it with no braces unless escaped by parentheses
                body = body[: b + 1] + " assert(false); /*VACUITY*/ " + body[b + 1 :]
                vacuity.append((self.name, "loop"))
            body = " assert(false); /*VACUITY*/ " + body
            vacuity.append((self.name, "entry"))
        c = ("\n" + self.contract_text.strip() + "\n") if self.contract_text.strip() else " "
        return f"{self.attrs}{self.sig}{c}{{{body}}}\n"
