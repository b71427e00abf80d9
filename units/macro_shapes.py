"""Uses of value!: their text, the constructor calls that they stand for, and what a contract says of the result.

A shape is ("leaf", text, constructor, kind, argument) or ("U" | "N", fields, trailing) or ("VU" | "VN", name, fields, trailing);
the fields of N and VN are (key, shape) pairs."""
import random

# leaves: text in the macro, what it is, and over which parameter; parameters stand for every value of their type
P_BOOL = ("leaf", "a", "bool", "a")
P_CHAR = ("leaf", "c", "char", "c")
P_VAL = ("leaf", "v.clone()", "value", "v")
P_STR = ("leaf", "s", "str", "s")
P_U = ("leaf", "n", "u128", "n")
P_I = ("leaf", "i", "i128", "i")
E_NOT = ("leaf", "!a", "bool", "!a")
E_CMP = ("leaf", "n == m", "bool", "(n == m)")
E_IF = ("leaf", "if a { n } else { m }", "u128", "(if a { n } else { m })")
E_CAST = ("leaf", "x as u128", "u128", "(x as u128)")
L_NUM = ("leaf", "7", "i32", "7")
L_NEG = ("leaf", "-3", "i32", "-3")
L_STR = ("leaf", '"foo"', "str", '"foo"')
L_TRUE = ("leaf", "true", "bool", "true")
LEAVES = [P_BOOL, P_CHAR, P_VAL, P_STR, P_U, P_I, E_NOT, E_CMP, E_IF, E_CAST, L_NUM, L_NEG, L_STR, L_TRUE]
PARAMS = "a: bool, c: char, v: Value<()>, s: &str, n: u128, m: u128, i: i128, x: u8"
KEYS = ["foo", "b", "_x1", '"foo bar"', '"b"', '" x"', '""', "Foo", "fields", "field_name"]
NAMES = ["Foo", "b", "v1", "Some", "variant_name", "POST"]


def text(s):
    if s[0] == "leaf":
        return s[1]
    if s[0] in ("U", "N"):
        name, fields, trail = "", s[1], s[2]
    else:
        name, fields, trail = s[1] + " ", s[2], s[3]
    o, c = "()" if s[0] in ("U", "VU") else "{}"
    inner = ", ".join((f"{k}: " if s[0] in ("N", "VN") else "") + text(x) for k, x in pairs(s))
    return f"{name}{o}{inner}{',' if trail and fields else ''}{c}"


def pairs(s):
    fields = s[1] if s[0] in ("U", "N") else s[2]
    return list(fields) if s[0] in ("N", "VN") else [(None, x) for x in fields]


def key(k):
    return k if k.startswith('"') else f'"{k}"'


def constructors(s):
    """the calls, as Rust over the public API"""
    if s[0] == "leaf":
        _, _, kind, arg = s
        return {"value": f"{arg}.clone()", "str": f"Value::string({arg})", "i32": f"Value::i128({arg})"}.get(kind, f"Value::{kind}({arg})")
    named = s[0] in ("N", "VN")
    fs = ", ".join((f"({key(k)}.to_string(), " if named else "") + constructors(x) + (")" if named else "") for k, x in pairs(s))
    v = f"Vec::<{'(String, Value)' if named else 'Value'}>::from([{fs}])"
    return f"Value::{ {'U': 'unnamed_composite(', 'N': 'named_composite(', 'VU': 'unnamed_variant(', 'VN': 'named_variant('}[s[0]] }" + (f"{key(s[1])}, " if s[0][0] == "V" else "") + v + ")"


def says(s, p="r"):
    """what the value at p must be, clause by clause"""
    if s[0] == "leaf":
        _, _, kind, arg = s
        if kind == "value":
            return [f"{p} == {arg}"]
        if kind == "str":
            return [f"{p}.value is Primitive", f"Primitive::str_spec({p}.value->Primitive_0) == Some({arg}@)"]
        var, num = {"bool": ("Bool", arg), "char": ("Char", arg), "u128": ("U128", arg), "i128": ("I128", arg), "i32": ("I128", f"({arg}i128)")}[kind]
        return [f"{p}.value == ValueDef::<()>::Primitive(Primitive::{var}({num}))"]
    out = []
    if s[0][0] == "V":
        out += [f"{p}.value is Variant", f"{p}.value->Variant_0.name@ == {key(s[1])}@"]
        q = f"{p}.value->Variant_0.values"
    else:
        out += [f"{p}.value is Composite"]
        q = f"{p}.value->Composite_0"
    kind = "Named" if s[0] in ("N", "VN") else "Unnamed"
    ps = pairs(s)
    out += [f"{q} is {kind}", f"{q}->{kind}_0@.len() == {len(ps)}"]
    for j, (k, x) in enumerate(ps):
        e = f"{q}->{kind}_0@[{j}]"
        if kind == "Named":
            out.append(f"{e}.0@ == {key(k)}@")
            e += ".1"
        out += says(x, e)
    return out


def make(form, items, rng, trail):
    if form in ("N", "VN"):
        ks = rng.sample(KEYS, min(len(items), len(KEYS))) if rng.random() < 0.9 else [rng.choice(KEYS) for _ in items]
        items = list(zip(ks, items))
    return (form, items, trail) if form in ("U", "N") else (form, rng.choice(NAMES), items, trail)


def deep(rng, d):
    if d == 0 or rng.random() < 0.25:
        return rng.choice(LEAVES)
    return make(rng.choice(["U", "N", "VU", "VN"]), [deep(rng, d - 1) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4]))], rng, rng.random() < 0.5)


def shapes(seed, n_deep):
    """every form of every width up to two over every kind of item, three with one odd item, three forms inside one another, and random deep ones"""
    rng = random.Random(seed)
    forms = ["U", "N", "VU", "VN"]
    kinds = [lambda: rng.choice(LEAVES[:6]), lambda: rng.choice(LEAVES[6:]), *[(lambda f=f: make(f, [rng.choice(LEAVES) for _ in range(rng.randrange(3))], rng, rng.random() < 0.5)) for f in forms]]
    out = list(LEAVES)
    for f in forms:
        out.append(make(f, [], rng, False))
        for k in kinds:
            out += [make(f, [k()], rng, t) for t in (False, True)]
            out.append(make(f, [rng.choice(LEAVES), k(), rng.choice(LEAVES)], rng, rng.random() < 0.5))
            for k2 in kinds:
                out.append(make(f, [k(), k2()], rng, rng.random() < 0.5))
    for f in forms:  # one inside another, alone there and with a neighbour
        for g in forms:
            for h in forms:
                inner = make(h, [rng.choice(LEAVES) for _ in range(rng.randrange(3))], rng, rng.random() < 0.5)
                mid = make(g, [inner], rng, rng.random() < 0.5)
                out.append(make(f, [mid] if rng.random() < 0.5 else [mid, rng.choice(LEAVES)], rng, rng.random() < 0.5))
    for _ in range(n_deep):
        s = deep(rng, 3)
        while s[0] == "leaf":
            s = deep(rng, 3)
        out.append(s)
    return out


def use(s, j):
    """an invocation, with one of the three kinds of brackets"""
    o, c = (("(", ")"), ("{", "}"), ("[", "]"))[j % 3]
    return f"value!{o}{text(s)}{c}"
