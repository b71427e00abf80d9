"""scale_impls/encode.rs: values to bytes (S02, S06, S07, S08, S11)."""
from units import lib_value, lib_text, lib_scale, lib_encode
from units.lib_scale import concrete, expand_visitor, drop_fn
PROPS = ["S02", "S05", "S06", "S07", "S08", "S10", "S11"]
ALSO = {"S02": ["S05"], "S07": ["S05"], "S10": ["S05"]}  # the round trip is a lemma over these
# obligations that carry no tag of their own
FN_PROPS = {"encode_vals_to_bitsequence": ["S08"], "encode_char": ["S02"], "encode_primitive": ["S02"], "encode_bitsequence": ["S05", "S08"], "encode_variant": ["S10"],
            "encode_as_fields_to": ["S11"], "do_find": ["S10", "S07"], "find_single_entry_with_same_repr": ["S10", "S07"], "find_single_unnamed_field": ["S10", "S07"], "get_only_value_from_composite": ["S10", "S07"],
            "encode_composite": ["S10"], "do_encode_composite": ["S10"]}


def wrote(r, a, b, e, who):
    """a contract in two parts: what was in the buffer stays; what is appended or reported"""
    return f"starts({a}, {b}) /*@ S06 */,\n match {e} {{ Ok(__b) => {r} is Ok && {b} == {a} + __b, Err(__x) => {r} is Err && {r}->Err_0 == __x }} /*@ {who} */"


LISTS = """
pub open spec fn items<T>(c: Composite<T>) -> Seq<Value<T>> { match c { Composite::Named(v) => v@.map_values(|p: (String, Value<T>)| p.1), Composite::Unnamed(v) => v@ } }
pub open spec fn derefs<T>(s: Seq<&T>) -> Seq<T> { s.map_values(|x: &T| *x) }
// what values() returns: an iterator over a list
pub struct RefIter<'a, T> { pub v: Vec<&'a Value<T>>, pub i: usize }
impl<'a, T> RefIter<'a, T> {
    pub open spec fn wf(&self) -> bool { self.i <= self.v@.len() }
    pub fn len(&self) -> (r: usize) requires self.wf() ensures r == self.v@.len() - self.i { self.v.len() - self.i }
    pub fn next(&mut self) -> (r: Option<&'a Value<T>>) requires old(self).wf()
        ensures final(self).wf(), final(self).v == old(self).v, old(self).i < old(self).v@.len() ==> r == Some(old(self).v@[old(self).i as int]) && final(self).i == old(self).i + 1, old(self).i == old(self).v@.len() ==> r is None && final(self).i == old(self).i
    { if self.i < self.v.len() { let x = self.v[self.i]; self.i += 1; Some(x) } else { None } }
}
// [x] of a list
pub fn only<T>(v: &Vec<T>) -> (r: Option<&T>) ensures r is Some == (v@.len() == 1), r is Some ==> *r->Some_0 == v@[0] { if v.len() == 1 { Some(&v[0]) } else { None } }
pub proof fn named_err<T>(reg: Registry, v: Vec<(String, Value<T>)>, ts: Seq<TypeId>, byname: bool, n: nat, m: nat)
    requires n <= m <= v@.len(), named_upto(reg, v, ts, byname, n) is Err ensures named_upto(reg, v, ts, byname, m) == named_upto(reg, v, ts, byname, n) decreases m - n
{ if n < m { named_err(reg, v, ts, byname, n, (m - 1) as nat); } }
pub proof fn unnamed_err<T>(reg: Registry, v: Vec<Value<T>>, ts: Seq<TypeId>, n: nat, m: nat)
    requires n <= m <= v@.len(), unnamed_upto(reg, v, ts, n) is Err ensures unnamed_upto(reg, v, ts, m) == unnamed_upto(reg, v, ts, n) decreases m - n
{ if n < m { unnamed_err(reg, v, ts, n, (m - 1) as nat); } }
pub open spec fn items_upto<T>(reg: Registry, c: Composite<T>, ts: Seq<TypeId>, byname: bool, n: nat) -> EncR { match c { Composite::Named(v) => named_upto(reg, v, ts, byname, n), Composite::Unnamed(v) => unnamed_upto(reg, v, ts, n) } }
pub proof fn items_err<T>(reg: Registry, c: Composite<T>, ts: Seq<TypeId>, byname: bool, n: nat)
    requires n <= count(c), items_upto(reg, c, ts, byname, n) is Err ensures enc_items(reg, c, ts, byname) == items_upto(reg, c, ts, byname, n)
{ match c { Composite::Named(v) => named_err(reg, v, ts, byname, n, v@.len()), Composite::Unnamed(v) => unnamed_err(reg, v, ts, n, v@.len()) } }
pub proof fn items_step<T>(reg: Registry, c: Composite<T>, ts: Seq<TypeId>, byname: bool, n: nat)
    requires n < count(c)
    ensures items_upto(reg, c, ts, byname, n + 1) == then(items_upto(reg, c, ts, byname, n), match enc(reg, item(c, n as int), ts[n as int]) { Ok(b) => Ok(b), Err(e) => Err(if byname && name_of(c, n as int) is Some { at_field(e, name_of(c, n as int)->Some_0) } else { at_idx(e, n as int) }) })
{ }
pub proof fn first_nonbit_at<T>(v: Seq<Value<T>>, i: nat, n: nat)
    requires i < n <= v.len(), bit_of(v[i as int]) is None, first_nonbit(v, i) is None ensures first_nonbit(v, n) == Some(i as int) decreases n
{ if i + 1 < n { first_nonbit_at(v, i, (n - 1) as nat); } }
"""


COMP = """
pub proof fn item_smaller<T>(c: Composite<T>, i: int) requires 0 <= i < count(c) ensures decreases_to!(c => item(c, i))
{ match c { Composite::Named(v) => { assert(decreases_to!(c => v)); assert(decreases_to!(v => v@[i])); assert(decreases_to!(v@[i] => v@[i].1)); }, Composite::Unnamed(v) => { assert(decreases_to!(c => v)); assert(decreases_to!(v => v@[i])); } } }
pub proof fn starts_all(a: Seq<u8>, b: Seq<u8>) requires starts(a, b) ensures forall|x: Seq<u8>| #[trigger] starts(b, x) ==> starts(a, x)
{ assert forall|x: Seq<u8>| #[trigger] starts(b, x) implies starts(a, x) by { assert(x.take(a.len() as int) =~= x.take(b.len() as int).take(a.len() as int)); } }
// one round of a loop over the items
pub proof fn item_round<T>(reg: Registry, c: Composite<T>, t: TypeId, byname: bool, n: nat)
    requires n < count(c), items_upto(reg, c, repeat(count(c), t), byname, n) is Ok
    ensures ({ let ts = repeat(count(c), t); match enc(reg, item(c, n as int), t) {
        Ok(b) => items_upto(reg, c, ts, byname, n + 1) == Ok::<Seq<u8>, Error>(items_upto(reg, c, ts, byname, n)->Ok_0 + b),
        Err(e) => enc_items(reg, c, ts, byname) == Err::<Seq<u8>, Error>(if byname && name_of(c, n as int) is Some { at_field(e, name_of(c, n as int)->Some_0) } else { at_idx(e, n as int) }) } })
{ let ts = repeat(count(c), t); items_step(reg, c, ts, byname, n); assert(ts[n as int] == t); if enc(reg, item(c, n as int), t) is Err { items_err(reg, c, ts, byname, n + 1); } }
"""


def values(b, v):
    """Composite::len and values, Value::as_*"""
    b.emit(LISTS)
    b.emit(lib_value.MAPS)
    b.emit("impl<T> Composite<T> {")
    b.fn(v.find_fn("len", within="impl<T> Composite<T>").sub_sig("-> usize", "-> (r: usize)").contract("ensures r == count(*self)"), "Composite::len")
    f = v.find_fn("values", within="impl<T> Composite<T>")
    f.sub_sig("fn values", "fn values_list").sub_sig("-> impl ExactSizeIterator<Item = &Value<T>>", "-> (r: Vec<&Value<T>>)")
    f.sub("Either::Left($e)", "{ let r: Vec<&Value<T>> = $e.collect(); proof { assert(derefs(r@) =~= items(*self)); } r }", 1)
    f.sub("Either::Right($e)", "{ let r: Vec<&Value<T>> = $e.collect(); proof { assert(derefs(r@) =~= items(*self)); } r }", 1)
    f.sub_opt(".map(|($k:ident, $w:ident)| $e)", ".map(|__a: &(String, Value<T>)| -> (r: &Value<T>) ensures *r == __a.1 { let ($k, $w) = __a; $e })")
    for p in lib_value.MAP_SUBS:
        f.sub_opt(*p)
    b.fn(f.contract("ensures derefs(r@) == items(*self)"), "Composite::values")
    b.emit("""pub fn values(&self) -> (r: RefIter<'_, T>) ensures r.wf(), r.i == 0, r.v@.len() == count(*self), forall|i: int| 0 <= i < count(*self) ==> *(#[trigger] r.v@[i]) == item(*self, i), derefs(r.v@) == vals_of(*self)
        { let v = self.values_list(); proof { assert forall|i: int| 0 <= i < count(*self) implies *(#[trigger] v@[i]) == item(*self, i) by { assert(derefs(v@)[i] == items(*self)[i]); } assert(derefs(v@).len() == items(*self).len()); assert(derefs(v@) =~= vals_of(*self)); } RefIter { v, i: 0 } }
    }
    impl Primitive {""")
    A = (("as_bool", "bool", "Bool"), ("as_u128", "u128", "U128"), ("as_i128", "i128", "I128"))
    for n, t, var in A:
        b.fn(v.find_fn(n, within="impl Primitive").sub_sig(f"-> Option<{t}>", f"-> (r: Option<{t}>)").contract(f"ensures r == (match *self {{ Primitive::{var}(x) => Some(x), _ => None }})"), "Primitive::" + n)
    b.emit("}\nimpl<T> Value<T> {")
    for n, t, var in A:
        b.fn(v.find_fn(n, within="impl<T> Value<T>").sub_sig(f"-> Option<{t}>", f"-> (r: Option<{t}>)").contract(f"ensures r == (match self.value {{ ValueDef::Primitive(Primitive::{var}(x)) => Some(x), _ => None }})"), "Value::" + n)
    b.emit("}")


def rename(f):
    """spellings of library items in the unit"""
    f.sub_opt('format!("{:?}", $e)', "debug_text(&$e)")
    f.sub_opt("scale_bits::Format", "Format").sub_opt("scale_bits::encode_using_format_to($b.into_iter(), $r)", "encode_using_format_to($b, $r)")
    f.sub_opt("$o:ident.extend_from_slice(&$t:ident)", "append($o, &$t)")
    f.sub_opt("Error::new(ErrorKind::$k)", "Error::new(ErrorKind::$k)")
    f.sub_opt("($v:ident as u32).encode_to($o:ident)", "u32_encode_to($v as u32, $o)")
    f.sub_opt("|$e:ident| $e.at_idx($i:rest)", "|$e: Error| -> (r: Error) ensures r == at_idx($e, ($i) as int) { $e.at_idx($i) }")
    f.sub_opt("|$e:ident| $e.at_field($n:ident.to_string())", "|$e: Error| -> (r: Error) ensures r == at_field($e, $n@) { $e.at_field($n.as_str().to_string()) }")
    f.sub_opt(".at_field($n:ident.to_string())", ".at_field($n.as_str().to_string())")
    f.sub_opt("&**$k:ident", "$k.as_str()")
    return f


def keyvals(f, comp):
    """the lists handed to scale_encode"""
    f.sub_opt("$v:ident.iter().map(|($k:ident, $x:ident)| $e)", "vec_map_ref($v, |__a: &'__l (String, Value<T>)| -> (r: (Option<&'__l str>, CompositeField<'__l, T>)) ensures view_name(r.0) == Some(__a.0@), r.1.val() == __a.1 { let ($k, $x) = __a; $e })")
    f.sub_opt("$v:ident.iter().map(|$x:ident| $e)", "vec_map_ref($v, |$x: &'__l Value<T>| -> (r: (Option<&'__l str>, CompositeField<'__l, T>)) ensures r.0 is None, r.1.val() == *$x { $e })")
    f.sub_opt("EncodeComposite::new($v)", f"EncodeComposite::new($v, Ghost({comp}))")
    f.body = f.body.replace("'__l ", "").replace("'__l, ", "'_, ")
    return f


def build(b):
    v = lib_value.types(b)
    b.emit("use vstd::utf8::*;\nuse vstd::string::*;\n")
    b.emit(lib_scale.REGISTRY)
    b.emit(lib_encode.SPEC)
    values(b, v)
    e = b.src("src/scale_impls/encode.rs")

    # ---- wrappers in the type
    f = concrete(e.find_fn("find_single_unnamed_field")).sub_sig("-> Option<TypeId>", "-> (r: Option<TypeId>)")
    expand_visitor(f, "()", "Option<TypeId>")
    f.sub_opt(".unwrap_or(None)", ".unwrap_or(None)")
    b.fn(f.contract("ensures r == single_unnamed(*types, type_id)"))
    f = concrete(e.find_fn("do_find")).sub_sig("-> (TypeId, bool)", "-> (r: (TypeId, bool))")
    expand_visitor(f, "(TypeId, bool)", "(TypeId, bool)")
    f.sub_opt("ctx.clone()", "(ctx.0.clone(), ctx.1)")
    b.fn(f.contract("requires types.ranked() ensures r.0 == same_repr(*types, type_id), r.1 == (type_id_has_changed || single(*types, type_id) is Some) decreases types.rank(type_id)"))
    f = drop_fn(concrete(e.find_fn("find_single_entry_with_same_repr")), "do_find").sub_sig("-> (TypeId, bool)", "-> (r: (TypeId, bool))")
    b.fn(f.contract("requires types.ranked() ensures r.0 == same_repr(*types, type_id), r.1 == (single(*types, type_id) is Some)"))
    f = e.find_fn("get_only_value_from_composite").sub_sig("-> Option<&'_ Value<T>>", "-> (r: Option<&'_ Value<T>>)")
    b.fn(f.contract("ensures r is Some == (count(*value) == 1), r is Some ==> *r->Some_0 == item(*value, 0)"))

    # ---- lists of bools
    f = rename(e.find_fn("encode_vals_to_bitsequence")).sub_sig("<'a, T: 'a>", "<'a, T>").sub_sig("impl ExactSizeIterator<Item = &'a Value<T>>", "RefIter<'a, T>").sub_sig("scale_bits::Format", "Format").sub_sig("-> Result<(), Error>", "-> (r: Result<(), Error>)")
    f.sub("for ($i:ident, $x:ident) in vals.enumerate() {", "let mut __it = vals; let mut __i: usize = 0; while let Some($x) = __it.next() { let $i = __i; proof { assert(*$x == vs[__i as int]); } __i += 1; proof { if bit_of(vs[__i - 1]) is None { first_nonbit_at(vs, (__i - 1) as nat, vs.len()); } }", 1)
    f.sub_opt("let mut bools = Vec::with_capacity", "let mut bools: Vec<bool> = Vec::with_capacity")
    f.loop(0, """invariant __it.wf(), __it.v == vals.v, vs == derefs(vals.v@), __i == __it.i, forall|i: int| 0 <= i < vs.len() ==> *(#[trigger] vals.v@[i]) == vs[i], first_nonbit(vs, __i as nat) is None, bools@ =~= bits_upto(vs, __i as nat), out@ == old(out)@, nonbit_text() == "Cannot encode non-boolean/0/1 value into a bit sequence entry"@
        ensures __i == vs.len() decreases vs.len() - __i""", 1)
    f.prelude("let ghost vs = derefs(vals.v@); proof { assert(bits_upto(vs, 0) =~= Seq::<bool>::empty()); }")
    b.fn(f.contract("""requires vals.wf(), vals.i == 0
        ensures wrote_all(r, old(out)@, final(out)@, match first_nonbit(derefs(vals.v@), vals.v@.len()) { Some(i) => Err(at_idx(err_custom(nonbit_text()), i)), None => Ok(bits_bytes(bits_upto(derefs(vals.v@), vals.v@.len()), format.store, format.order)) }) /*@ S08 */"""))

    # ---- primitives
    f = rename(concrete(e.find_fn("encode_char"))).sub_sig("-> Result<(), Error>", "-> (r: Result<(), Error>)")
    expand_visitor(f, "()", "bool")
    f.sub_opt("scale_type_resolver::Primitive::", "PrimitiveType::")
    b.fn(f.contract("requires types.ranked() ensures " + wrote("r", "old(bytes)@", "final(bytes)@", "enc_char(*types, value, type_id)", "S02")))
    f = rename(concrete(e.find_fn("encode_primitive"))).sub_sig("-> Result<(), Error>", "-> (r: Result<(), Error>)")
    b.fn(f.contract("requires types.ranked() ensures " + wrote("r", "old(bytes)@", "final(bytes)@", "enc_prim(*types, *value, type_id)", "S02")))
    f = rename(concrete(e.find_fn("encode_bitsequence"))).sub_sig("-> Result<(), Error>", "-> (r: Result<(), Error>)").sub_sig("&Bits", "&BitSequence")
    b.fn(f.contract("requires types.ranked() ensures " + wrote("r", "old(bytes)@", "final(bytes)@", "enc_bits(*types, value.bits(), type_id)", "S08")))
    f = keyvals(rename(concrete(e.find_fn("encode_variant"))), "value.values").sub_sig("-> Result<(), Error>", "-> (r: Result<(), Error>)")
    f.sub_opt("name: &value.name", "name: value.name.as_str()")
    b.fn(f.contract("requires types.ranked() ensures " + wrote("r", "old(out)@", "final(out)@", "enc_variant(*types, value.name@, value.values, type_id)", "S10")))

    # ---- composites
    b.emit(COMP)
    TS = "repeat(count(*value), __ty)"
    f = keyvals(rename(concrete(e.find_fn("do_encode_composite"))), "*value").sub_sig("-> Result<(), Error>", "-> (r: Result<(), Error>)")
    f.sub("|($a:ident, $b:ident): (TypeId, &mut Vec<u8>)| -> Result<(), Error> {", "|__a: (TypeId, &mut Vec<u8>)| -> (r: Result<(), Error>) requires types.ranked() ensures " + wrote("r", "old(__a.1)@", "final(__a.1)@", "sc_comp(*types, *value, __a.0)", "S10") + "\n{ let ($a, $b) = __a; ", 1)

    def arm(e, who):
        return "requires types.ranked() ensures " + wrote("r", "old(__a0.1)@", "final(__a0.1)@", e, who) + "\n"


    def head(get, byname):
        return f"""let ghost __b0 = out@; let ghost __ty = type_id; let mut __i: usize = 0; while __i < {{N}}
            invariant {{I}} types.ranked(), {{L}} == count(*value), __i <= count(*value), {{B}}, type_id == __ty, *final(out) == *final(__a0.1), starts(__b0, out@), items_upto(*types, *value, {TS}, {byname}, __i as nat) is Ok, out@ =~= __b0 + items_upto(*types, *value, {TS}, {byname}, __i as nat)->Ok_0
            decreases count(*value) - __i
        {{{{ proof {{{{ item_round(*types, *value, __ty, {byname}, __i as nat); item_smaller(*value, __i as int); starts_all(__b0, out@); }}}} {get} __i += 1; """
    SB, AB = "__ty == __a2, __b0 == old(__a0.1)@ + compact((count(*value) as u32) as int)", "__ty == __a1, __a2 == count(*value), __b0 == old(__a0.1)@"
    f.sub_opt("in $v:ident.iter() {", "in $v {")
    f.sub_opt("for ($n:ident, $x:ident) in $v:ident {", head("let ($n, $x) = (&$v[__i].0, &$v[__i].1);", "true").format(B=SB, N="$v.len()", I="*value == Composite::Named(*$v),", L="$v@.len()"))
    f.sub_opt("for ($n:ident, $x:ident) in $v:ident.iter().enumerate() {", head("let $n = __i; let $x = &$v[__i];", "true").format(B=SB, N="$v.len()", I="*value == Composite::Unnamed(*$v),", L="$v@.len()"))
    f.sub_opt("for ($n:ident, $x:ident) in value.values().enumerate() {", "let __l = value.values(); " + head("let $n = __i; let $x = __l.v[__i];", "false").format(B=AB, N="__l.v.len()", I="forall|i: int| 0 <= i < count(*value) ==> *(#[trigger] __l.v@[i]) == item(*value, i),", L="__l.v@.len()"))
    expand_visitor(f, "(TypeId, &mut Vec<u8>)", "Result<(), Error>", {
        "default": arm("(if count(*value) == 1 { enc_only(*types, *value, __a0.0) } else { Err(err_new(ErrorKind::WrongShape { actual: Kind::Tuple, expected_id: dbg(__a0.0) })) })", "S10"),
        "sequence": arm("(then(Ok(compact((count(*value) as u32) as int)), enc_items(*types, *value, repeat(count(*value), __a2), true)))", "S07"),
        "array": arm("(if count(*value) != __a2 { Err(err_new(ErrorKind::WrongLength { actual_len: count(*value) as usize, expected_len: __a2 })) } else { enc_items(*types, *value, repeat(count(*value), __a1), false) })", "S07"),
        "bit_sequence": arm("enc_bitlist(*value, __a1, __a2)", "S08"),
    })
    f.prelude("proof { assert forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #[trigger] ((a + b) + c) == a + (b + c) by { assert((a + b) + c =~= a + (b + c)); } }")
    b.fn(f.contract("requires types.ranked() ensures " + wrote("r", "old(out)@", "final(out)@", "plain(*types, *value, type_id)", "S07 S08 S10") + "\ndecreases *value, 4nat"))
    f = drop_fn(keyvals(rename(concrete(e.find_fn("encode_composite"))), "*value"), "do_encode_composite").sub_sig("-> Result<(), Error>", "-> (r: Result<(), Error>)")
    f.sub_opt("([$v:ident], $p) = (&vals[..], $e)", "(Some($v), $p) = (only(vals), $e)")
    f.sub_sig("mut type_id: TypeId", "type_id: TypeId", minimum=0)
    f.prelude("let mut type_id = type_id; proof { assert forall|b: Seq<u8>| #[trigger] (Seq::<u8>::empty() + b) == b by { assert(Seq::<u8>::empty() + b =~= b); } if count(*value) == 1 { item_smaller(*value, 0); } }")
    b.fn(f.contract("requires types.ranked() ensures " + wrote("r", "old(out)@", "final(out)@", "enc_comp(*types, *value, type_id)", "S10") + """,
        r is Err ==> final(out)@ == old(out)@ /*@ S06 */,
        r is Err ==> plain(*types, *value, type_id) is Err && r->Err_0 == plain(*types, *value, type_id)->Err_0 /*@ S06 */
        decreases *value, 5nat"""))
    b.emit("impl<T> Value<T> {")
    f = concrete(e.find_fn("encode_as_type_to", within="EncodeAsType for Value")).sub_sig("-> Result<(), Error>", "-> (r: Result<(), Error>)")
    b.fn(f.contract("""requires types.ranked()
        ensures """ + wrote("r", "old(out)@", "final(out)@", "enc(*types, *self, type_id)", "S02 S10") + """,
        self.value is Composite && r is Err ==> final(out)@ == old(out)@ /*@ S06 */
        decreases *self, 9nat"""), "Value::encode_as_type_to")
    b.emit("}")

    # ---- by a list of fields
    b.emit("impl<T> Composite<T> {")
    f = keyvals(rename(concrete(e.find_fn("encode_as_fields_to", within="EncodeAsFields for Composite"))), "*self")
    f.sub_sig("&mut dyn FieldIter<'_, TypeId>", "&mut FieldIter<'_>").sub_sig("-> Result<(), Error>", "-> (r: Result<(), Error>)")
    b.fn(f.contract("requires types.ranked() ensures " + wrote("r", "old(out)@", "final(out)@", "enc_fields(*types, *self, old(fields).left())", "S11")), "Composite::encode_as_fields_to")
    b.emit("}\nimpl<T> Value<T> {")
    f = rename(concrete(e.find_fn("encode_as_fields_to", within="EncodeAsFields for Value")))
    f.sub_sig("&mut dyn FieldIter<'_, TypeId>", "&mut FieldIter<'_>").sub_sig("-> Result<(), Error>", "-> (r: Result<(), Error>)")
    b.fn(f.contract("""requires types.ranked() ensures """ + wrote("r", "old(out)@", "final(out)@", """(match self.value { ValueDef::Composite(c) => enc_fields(*types, c, old(fields).left()), _ => Err(err_custom("Cannot encode non-composite Value shape into fields"@)) })""", "S11") + """, !(self.value is Composite) ==> final(out)@ == old(out)@ /*@ S11 */"""), "Value::encode_as_fields_to")
    b.emit("}")

    # ---- the crate's entry point
    l = b.src("src/lib.rs")
    f = l.find_fn("encode_as_type").sub_sig("<R: TypeResolver, T>", "<T>").sub_sig("&crate::Value<T>", "&Value<T>").sub_sig("R::TypeId", "TypeId").sub_sig("types: &R", "types: &Registry").sub_sig("-> Result<(), EncodeError>", "-> (r: Result<(), Error>)")
    b.fn(f.contract("requires types.ranked() ensures " + wrote("r", "old(buf)@", "final(buf)@", "enc(*types, *value, ty_id)", "S02 S10") + ",\n value.value is Composite && r is Err ==> final(buf)@ == old(buf)@ /*@ S06 */"), "scale::encode_as_type")
