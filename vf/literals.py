"""The literals in the source under test, which the bounded part mixes into its inputs. Those that are not in
oracle/literals.txt (the literals of the tree the checks were written for) are marked as new and used more often.
python3 -m vf.literals > oracle/literals.txt writes that file."""
import ast
import glob
import os
import re
from vf.rust import lex, match_close, LostAnchor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WIDTH = {p + str(w): (w, p == "i") for p in "ui" for w in (8, 16, 32, 64, 128)}


def number(s):
    m = re.match(r"^(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*)([iu](?:8|16|32|64|128|size))?$", s)
    if not m:
        # 0x.. swallows suffixes such as u8 only when they are not hex digits
        return None
    return int(m.group(1).replace("_", ""), 0) if not re.match(r"^0\d", m.group(1)) else int(m.group(1).replace("_", ""))


def text(s):
    s = s[1:] if s[0] == "b" else s
    s = re.sub(r"\\\n\s*", "", s)
    s = re.sub(r"\\u\{([0-9a-fA-F_]+)\}", lambda m: chr(int(m.group(1).replace("_", ""), 16)).replace("\\", "\\\\"), s)
    s = s.replace("\\0", "\\x00")
    return ast.literal_eval('"""' + s[1:-1].replace('"', '\\"').replace('\\\\"', '\\"') + '"""')


def literals(repo):
    out = set()
    for p in sorted(glob.glob(os.path.join(repo, "src", "**", "*.rs"), recursive=True)):
        try:
            toks = lex(open(p, encoding="utf-8", errors="replace").read())
        except (LostAnchor, OSError):
            continue
        i = 0
        nums = []
        while i < len(toks):
            t = toks[i]
            # tests are not what runs
            if t.s == "mod" and i + 2 < len(toks) and "test" in toks[i + 1].s and toks[i + 2].s == "{":
                try:
                    i = match_close(toks, i + 2) + 1
                except LostAnchor:
                    i += 1
                continue
            try:
                if t.k == "num":
                    n = number(t.s)
                    if n is not None and n < 1 << 128:
                        out.add(f"i {n}")
                        # a << b and a * b
                        if i >= 2 and toks[i - 2].k == "num" and number(toks[i - 2].s) is not None:
                            a = number(toks[i - 2].s)
                            if toks[i - 1].s == "*" and a * n < 1 << 128:
                                out.add(f"i {a * n}")
                        if i >= 3 and toks[i - 3].k == "num" and toks[i - 1].s == toks[i - 2].s == "<" and n < 128 and number(toks[i - 3].s) is not None:
                            out.add(f"i {(number(toks[i - 3].s) << n) & ((1 << 128) - 1)}")
                elif t.k == "id" and t.s in WIDTH and i + 2 < len(toks) and toks[i + 1].s == "::" and toks[i + 2].s == "MAX":
                    w, sg = WIDTH[t.s]
                    out.add(f"i {(1 << (w - sg)) - 1}")
                elif t.k == "id" and t.s == "as" and i + 1 < len(toks) and toks[i + 1].s in WIDTH:
                    w, sg = WIDTH[toks[i + 1].s]
                    out.add(f"i {(1 << w) - 1}")
                    out.add(f"i {1 << (w - 1)}")
                elif t.k == "chr":
                    c = text(t.s)
                    if len(c) == 1:
                        out.add(f"c {ord(c)}")
                elif t.k == "str":
                    s = text(t.s)
                    # the name that marks bit sequences in serde's data model is not for general use (D05-marker)
                    if len(s) <= 24 and not p.endswith("bitvec_helpers.rs"):
                        out.add("s " + s.encode("utf-8", "surrogatepass").hex())
            except (ValueError, SyntaxError, IndexError):
                pass
            i += 1
    return out


def write(repo, path):
    try:
        known = set(open(os.path.join(HERE, "oracle", "literals.txt")).read().split("\n"))
    except OSError:
        known = set()
    ls = literals(repo)
    with open(path, "w") as f:
        for x in sorted(ls):
            f.write((x if x in known else x[0].upper() + x[1:]) + "\n")


if __name__ == "__main__":
    print("\n".join(sorted(literals("/repo"))))
