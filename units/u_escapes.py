"""string_helpers: the escape tables, and that they are inverse to each other."""
PROPS = ["T03", "T01"]


def build(b):
    h = b.src("src/string_impls/string_helpers.rs")
    b.emit(
        """
pub open spec fn esc(c: char) -> Option<char> {
    if c == '\\n' { Some('n') } else if c == '\\t' { Some('t') } else if c == '"' { Some('"') }
    else if c == '\\'' { Some('\\'') } else if c == '\\r' { Some('r') } else if c == '\\\\' { Some('\\\\') }
    else if c == '\\0' { Some('0') } else { None }
}
pub open spec fn unesc(c: char) -> Option<char> {
    if c == 'n' { Some('\\n') } else if c == 't' { Some('\\t') } else if c == '"' { Some('"') }
    else if c == '\\'' { Some('\\'') } else if c == 'r' { Some('\\r') } else if c == '\\\\' { Some('\\\\') }
    else if c == '0' { Some('\\0') } else { None }
}
// reading back what was written, and the other way round, for every char
proof fn escape_then_unescape(c: char)
    ensures esc(c).is_some() ==> unesc(esc(c).unwrap()) == Some(c)
{ }
proof fn unescape_then_escape(e: char)
    ensures unesc(e).is_some() ==> esc(unesc(e).unwrap()) == Some(e)
{ }
// a char that is written as itself is neither a quote nor a backslash
proof fn unescaped_are_harmless(c: char)
    ensures esc(c).is_none() ==> c != '"' && c != '\\'' && c != '\\\\'
{ }
"""
    )
    b.fn(h.find_fn("to_escape_code").sub_sig("-> Option<char>", "-> (r: Option<char>)").contract("ensures r == esc(c)"))
    b.fn(h.find_fn("from_escape_code").sub_sig("-> Option<char>", "-> (r: Option<char>)").contract("ensures r == unesc(c)"))
