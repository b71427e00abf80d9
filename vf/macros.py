"""macro_rules! expansion, so that what a macro stands for can be taken out of the source like any other function.

Expands every invocation of the macros defined in the file itself (declarative macros only; hygiene is not modelled:
the expansion is checked by the compiler inside the generated file)."""
from .rust import LostAnchor, lex, match_close, OPEN, Src


class Frag:
    def __init__(self, name, kind):
        self.name, self.kind = name, kind


class Rep:
    def __init__(self, inner, sep, op):
        self.inner, self.sep, self.op = inner, sep, op


class Group:
    def __init__(self, open_, inner):
        self.open, self.inner = open_, inner


def tree(toks, matcher):
    """tokens -> [T | Frag | Rep | Group]"""
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.k == "op" and t.s == "$" and i + 1 < len(toks):
            n = toks[i + 1]
            if n.s == "(":
                c = match_close(toks, i + 1)
                inner = tree(toks[i + 2 : c], matcher)
                j = c + 1
                sep = None
                if toks[j].s not in ("*", "+", "?"):
                    sep = toks[j].s
                    j += 1
                out.append(Rep(inner, sep, toks[j].s))
                i = j + 1
                continue
            if matcher and i + 3 < len(toks) and toks[i + 2].s == ":":
                out.append(Frag(n.s, toks[i + 3].s))
                i += 4
                continue
            out.append(Frag(n.s, None))
            i += 2
            continue
        if t.k == "op" and t.s in OPEN:
            c = match_close(toks, i)
            out.append(Group(t.s, tree(toks[i + 1 : c], matcher)))
            i = c + 1
            continue
        out.append(t)
        i += 1
    return out


def upto(toks, i, stops):
    j, depth = i, 0
    while j < len(toks):
        t = toks[j]
        if t.k == "op" and t.s in OPEN:
            j = match_close(toks, j) + 1
            continue
        if t.k == "op":
            if t.s == "<":
                depth += 1
            elif t.s == ">" and depth:
                depth -= 1
            elif t.s in stops and (depth == 0 or t.s not in (",",)):
                break
        j += 1
    return j


def frag(kind, toks, i):
    """end of the fragment that starts at i, or None"""
    if i >= len(toks):
        return None
    if kind in ("ident", "lifetime", "literal"):
        return i + 1 if (toks[i].k == "id" if kind == "ident" else toks[i].k != "op") else None
    if kind == "tt":
        return match_close(toks, i) + 1 if toks[i].s in OPEN else i + 1
    if kind == "block":
        return match_close(toks, i) + 1 if toks[i].s == "{" else None
    if kind == "expr":
        j = upto(toks, i, (",", ";", "=>"))
    elif kind in ("pat", "pat_param"):
        j = upto(toks, i, ("=>", ",", "="))
    elif kind in ("ty", "path"):
        j = i
        while j < len(toks):
            t = toks[j]
            if t.s in ("&", "*", "::") or t.k == "life" or t.s in ("mut", "const", "dyn", "impl"):
                j += 1
                continue
            if t.s in ("[", "("):
                return match_close(toks, j) + 1
            if t.k != "id":
                return None
            j += 1
            if j < len(toks) and toks[j].s == "<":
                d = 0
                while j < len(toks):
                    d += {"<": 1, ">": -1}.get(toks[j].s, 0)
                    j += 1
                    if d == 0:
                        break
            if j < len(toks) and toks[j].s == "::":
                continue
            return j
        return None
    else:
        raise LostAnchor(f"macro fragment {kind}")
    return j if j > i else None


def match(pat, toks, i):
    """-> (end, env) or None; env: name -> text or [env per repetition]"""
    env = {}
    for k, p in enumerate(pat):
        if isinstance(p, Frag):
            e = frag(p.kind, toks, i)
            if e is None:
                return None
            env[p.name] = toks[i:e]
            i = e
        elif isinstance(p, Group):
            if i >= len(toks) or toks[i].s != p.open:
                return None
            c = match_close(toks, i)
            r = match(p.inner, toks[i + 1 : c], 0)
            if r is None or r[0] != c - i - 1:
                return None
            env.update(r[1])
            i = c + 1
        elif isinstance(p, Rep):
            reps = []
            while True:
                j = i
                if reps and p.sep:
                    if j >= len(toks) or toks[j].s != p.sep:
                        break
                    j += 1
                r = match(p.inner, toks, j)
                if r is None or r[0] == j:
                    break
                i, e = r
                reps.append(e)
                if p.op == "?":
                    break
            if p.op == "+" and not reps:
                return None
            for n in names(p.inner):
                env[n] = [e[n] for e in reps]
                env[n] = ("rep", env[n])
        else:
            if i >= len(toks) or toks[i].s != p.s:
                return None
            i += 1
    return i, env


def names(pat):
    out = []
    for p in pat:
        if isinstance(p, Frag):
            out.append(p.name)
        elif isinstance(p, (Rep, Group)):
            out += names(p.inner)
    return out


def write(body, env):
    out = []
    for p in body:
        if isinstance(p, Frag):
            v = env.get(p.name)
            if v is None:
                out += ["$", p.name]
            elif isinstance(v, tuple):
                raise LostAnchor("macro repetition depth")
            else:
                out += [t.s for t in v]
        elif isinstance(p, Group):
            out += [p.open, *write(p.inner, env), OPEN[p.open]]
        elif isinstance(p, Rep):
            ns = [n for n in names(p.inner) if isinstance(env.get(n), tuple)]
            if not ns:
                raise LostAnchor("macro repetition without a variable")
            n = {len(env[x][1]) for x in ns}
            if len(n) != 1:
                raise LostAnchor("macro repetitions of different lengths")
            for k in range(n.pop()):
                if k and p.sep:
                    out.append(p.sep)
                out += write(p.inner, {**env, **{x: env[x][1][k] for x in ns}})
        else:
            out.append(p.s)
    return out


def arms(text):
    toks = lex(text)
    o = next(i for i, t in enumerate(toks) if t.s == "{")
    e = match_close(toks, o)
    i, out = o + 1, []
    while i < e:
        mc = match_close(toks, i)
        if toks[mc + 1].s != "=>":
            raise LostAnchor("macro arm")
        bo = mc + 2
        bc = match_close(toks, bo)
        out.append((tree(toks[i + 1 : mc], True), tree(toks[bo + 1 : bc], False)))
        i = bc + 1
        if i < e and toks[i].s == ";":
            i += 1
    return out


def join(ss):
    out, prev = "", ""
    for s in ss:
        # a space everywhere but where it would split what the lexer reads as one
        out += s if not out else " " + s
        prev = s
    return out


FORWARD = {"unit_struct": "name: &'static str, ", "newtype_struct": "name: &'static str, ", "tuple": "len: usize, ", "tuple_struct": "name: &'static str, len: usize, ",
           "struct": "name: &'static str, fields: &'static [&'static str], ", "enum": "name: &'static str, variants: &'static [&'static str], "}


def forward(args):
    """serde's forward_to_deserialize_any!"""
    out = []
    for t in args:
        if t.k != "id":
            raise LostAnchor("forward_to_deserialize_any! with a lifetime or type parameter")
        out.append(f"fn deserialize_{t.s}<V>(self, {FORWARD.get(t.s, '')}visitor: V) -> Result<V::Value, Self::Error> where V: de::Visitor<'de> {{ self.deserialize_any(visitor) }}")
    return "\n".join(out)


def expand(src, limit=4000):
    """a new Src with the file's own macros, and forward_to_deserialize_any!, written out; test modules are left alone"""
    out = Src.__new__(Src)
    out.name = src.name
    text = src.text
    toks = lex(text)
    # drop test modules: their macros do not matter
    cuts = []
    for i, t in enumerate(toks):
        if t.s == "mod" and i + 1 < len(toks) and toks[i + 1].s in ("test", "tests"):
            o = next(k for k in range(i, len(toks)) if toks[k].s == "{")
            cuts.append((t.a, toks[match_close(toks, o)].b))
    for a, b in reversed(cuts):
        text = text[:a] + text[b:]
    toks = lex(text)
    defs, cuts = {}, []
    for i, t in enumerate(toks):
        if t.s == "macro_rules" and toks[i + 1].s == "!":
            o = i + 3
            c = match_close(toks, o)
            defs[toks[i + 2].s] = arms(text[t.a : toks[c].b])
            cuts.append((t.a, toks[c].b))
    for a, b in reversed(cuts):
        text = text[:a] + text[b:]
    used = {}
    for _ in range(limit):
        toks = lex(text)
        at = next((k for k, t in enumerate(toks[:-2]) if t.k == "id" and toks[k + 1].s == "!" and toks[k + 2].s in OPEN and (t.s in defs or t.s == "forward_to_deserialize_any")), None)
        if at is None:
            break
        n = toks[at].s
        c = match_close(toks, at + 2)
        inner = toks[at + 3 : c]
        if n == "forward_to_deserialize_any":
            rep = forward(inner)
        else:
            rep = None
            for m, bd in defs[n]:
                r = match(m, inner, 0)
                if r is not None and r[0] == len(inner):
                    rep = join(write(bd, r[1]))
                    break
            if rep is None:
                raise LostAnchor(f"no arm of {n}! fits")
        used[n] = used.get(n, 0) + 1
        end = toks[c].b
        # a statement-like invocation of an item macro takes its semicolon with it
        item = at == 0 or toks[at - 1].s in ("}", ";", "{")
        if item and c + 1 < len(toks) and toks[c + 1].s == ";" and lex(rep)[:1] and lex(rep)[0].s in ("fn", "pub", "impl"):
            end = toks[c + 1].b
        text = text[: toks[at].a] + rep + text[end:]
    else:
        raise LostAnchor("macros expand too often")
    out.text = text
    out.toks = lex(text)
    out.expanded = used
    return out
