"""The bounded part of V05: uses of value! compiled against the real crate, compared with the constructor calls they stand for."""
import json
import os
import re
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = r"""#![allow(clippy::all, unused)]
use scale_value::{value, Value};
fn esc(s: &str) -> String { format!("{:?}", s).replace("\\'", "'").replace("\\0", "\\u0000").replace("\\u{", "(u){") }
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let only: Option<usize> = args.iter().position(|a| a == "--case").and_then(|i| args.get(i + 1)).and_then(|s| s.parse().ok());
    let mut evals = 0usize;
    for round in 0..4u128 {
        for (j, f) in USES.iter().enumerate() {
            if only.map_or(false, |o| o != j) { continue; }
            evals += 1;
            let (a, c, v, s, n, m, i, x) = (round % 2 == 0, ['a', '\'', '\u{10ffff}', '0'][round as usize], Value::u128(round), ["", "foo", "a b", "é\""][round as usize],
                [0, 5, u128::MAX, 9][round as usize], [0, 7, 1, 9][round as usize], [0, -1, i128::MIN, 44][round as usize], [0u8, 255, 1, 128][round as usize]);
            let r = std::panic::catch_unwind(|| f.1(a, c, v, s, n, m, i, x));
            let what = match r { Ok((got, want)) if got == want => continue, Ok((got, want)) => format!("gives {got:?}, not {want:?}"), Err(_) => "panics".to_string() };
            println!("{{\"failure\":{{\"section\":\"value!\",\"case\":{j},\"input\":{},\"what\":{}}},\"evals\":{evals},\"sections\":{{\"value!\":{evals}}},\"distinct\":{},\"rules\":[],\"samples\":[],\"known\":[]}}", esc(f.0), esc(&what), USES.len());
            std::process::exit(1);
        }
    }
    println!("{{\"failure\":null,\"evals\":{evals},\"sections\":{{\"value!\":{evals}}},\"distinct\":{},\"rules\":[{}],\"samples\":[{}],\"known\":[]}}", USES.len(),
        esc("every form of every width up to two over every kind of item, and random nested ones, each over four choices of the parameters"), USES.iter().skip(1).step_by(USES.len() / 3).map(|u| esc(u.0)).collect::<Vec<_>>().join(","));
}
type Use = fn(bool, char, Value, &str, u128, u128, i128, u8) -> (Value, Value);
const USES: &[(&str, Use)] = &[
"""


def sources(seed, tier):
    from units import macro_shapes as S
    shapes = S.shapes(seed, 120 if tier == "quick" else 1500)
    lines = [f"({json.dumps(S.use(s, j), ensure_ascii=False)}, |a, c, v, s, n, m, i, x| ({S.use(s, j)}, {S.constructors(s)}))," for j, s in enumerate(shapes)]
    return shapes, HEAD + "\n".join(lines) + "\n];\n", HEAD.count("\n") + 1


def build(repo, seed, tier, build_dir):
    """-> (program or None, a failure to compile or None, note)"""
    from units import macro_shapes as S
    shapes, text, first = sources(seed, tier)
    d = os.path.join(build_dir, "macro_oracle")
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    open(os.path.join(d, "src", "main.rs"), "w").write(text)
    open(os.path.join(d, "Cargo.toml"), "w").write(f'[package]\nname = "macro_oracle"\nversion = "0.1.0"\nedition = "2021"\n\n[workspace]\n\n[profile.dev]\ndebug = false\n\n[dependencies]\nscale-value = {{ path = "{repo}" }}\n')
    lock = os.path.join(HERE, "oracle", "Cargo.lock")
    if os.path.exists(lock):
        t = open(lock).read().replace('name = "oracle"', 'name = "macro_oracle"')
        open(os.path.join(d, "Cargo.lock"), "w").write(t)
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(d, "target"), CARGO_NET_OFFLINE="true")
    p = subprocess.run(["cargo", "build", "--offline", "--quiet", "--message-format", "short"], cwd=d, env=env, capture_output=True, text=True)
    exe = os.path.join(d, "target", "debug", "macro_oracle")
    if p.returncode == 0:
        return exe, None, ""
    errs = re.findall(r"^src/main\.rs:(\d+):\d+: error(.*)$", p.stderr, re.M)
    bad = [(int(ln) - first, what) for ln, what in errs]
    if bad and all(0 <= j < len(shapes) for j, _ in bad):
        j, what = bad[0]
        return None, dict(section="value!", case=j, input=S.use(shapes[j], j), what="does not compile" + what), ""
    return None, None, "the crate or the uses of value! do not build: " + p.stderr[-2000:]
