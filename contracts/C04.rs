// C04: what a value is stored as, and that loading it gives the value back; parts that are not written stay as they are.

pub open spec fn lay_size(t: Type) -> int { LayoutStrategy__expect_size(Type__layout(t), Str).raw }

// ---------------------------------------------------------------- bytes of integers
pub proof fn be_len(i: int, n: nat)
    ensures be_bytes(i, n).len() == n
    decreases n
{ if n > 0 { be_len(i / 256, (n - 1) as nat); } }
pub open spec fn fits_int(i: int, n: nat, sg: Signedness) -> bool { in_range(IntType { signed: sg, size: Size { raw: n as int } }, i) }
pub proof fn be_round(i: int, n: nat, sg: Signedness)
    requires n >= 1, fits_int(i, n, sg)
    ensures be_val(be_bytes(i, n), sg) == i, be_bytes(i, n).len() == n,
    decreases n
{
    be_len(i, n);
    let b = be_bytes(i, n);
    let m = (n - 1) as nat;
    if n == 1 {
        assert(p2(8) == 256 && p2(7) == 128) by { reveal_with_fuel(pow, 9); }
        assert(be_bytes(i / 256, 0) =~= Seq::empty());
        assert(b =~= seq![(i % 256) as u8]);
    } else {
        assert(p2(8 * n as int) == 256 * p2(8 * m as int) && p2(8 * n as int - 1) == 256 * p2(8 * m as int - 1)) by {
            lemma_pow_adds(2, 8, 8 * m); lemma_pow_adds(2, 8, (8 * m - 1) as nat);
            assert(8 + 8 * m == 8 * n);
            assert(pow(2, 8) == 256) by { reveal_with_fuel(pow, 9); }
        }
        lemma_fundamental_div_mod(i, 256);
        assert(fits_int(i / 256, m, sg));
        be_round(i / 256, m, sg);
        assert(b.drop_last() =~= be_bytes(i / 256, m));
    }
}
/// an integer's bytes, in the target's byte order, decode to the integer
pub proof fn int_bytes(e: Endianness, t: IntType, i: int)
    requires int_wf(t), in_range(t, i)
    ensures Endianness__encode(e, t.signed, t.size, i) is Some, ({
        let b = Endianness__encode(e, t.signed, t.size, i)->0;
        b.s.len() == t.size.raw && Endianness__decode(e, t.signed, b) == i
            && (e == Endianness::BigEndian ==> b.s == be_bytes(i, t.size.raw as nat)) && (e == Endianness::LittleEndian ==> b.s == be_bytes(i, t.size.raw as nat).reverse())
    })
{
    lemma_int_ty(t);
    be_round(i, t.size.raw as nat, t.signed);
    let b = Endianness__encode(e, t.signed, t.size, i)->0;
    assert(be_bytes(i, t.size.raw as nat).reverse().reverse() =~= be_bytes(i, t.size.raw as nat));
}

// ---------------------------------------------------------------- scalar types
/// v, stored at type t, has the size of the type and loads as v again
pub open spec fn survives(t: Type, v: Value) -> bool { Type__encode(t, v).s.len() == lay_size(t) && Type__decode(t, Type__encode(t, v)) == Some(v) }
pub proof fn integers(t: IntType, i: int)
    requires int_wf(t), in_range(t, i)
    ensures survives(Type::Int(t), Value::Int(i)), ({
        let b = Endianness__encode(T__ENDIANNESS(), t.signed, t.size, i)->0;
        forall|k: int| 0 <= k < t.size.raw ==> #[trigger] Type__encode(Type::Int(t), Value::Int(i)).s[k] == AbstractByte::Init(b.s[k], None::<ProvenanceFrag<Prov>>)
    })
{
    int_bytes(T__ENDIANNESS(), t, i);
    let e = Type__encode(Type::Int(t), Value::Int(i));
    Type__encode__def(Type::Int(t), Value::Int(i));
    Type__decode__def(Type::Int(t), e);
    let b = Endianness__encode(T__ENDIANNESS(), t.signed, t.size, i)->0;
    let f = |b: AbstractByte<Prov>| { AbstractByte__data::<Prov>(b) };
    assert forall|k: int| 0 <= k < e.s.len() implies f(#[trigger] e.s[k]) == Some(b.s[k]) by { }
    assert(List__try_map_opt(e, f)->0.s =~= b.s);
}
pub proof fn booleans(v: bool)
    ensures survives(Type::Bool, Value::Bool(v)), Type__encode(Type::Bool, Value::Bool(v)).s =~= seq![AbstractByte::Init(if v { 1u8 } else { 0u8 }, None::<ProvenanceFrag<Prov>>)],
{
    Type__encode__def(Type::Bool, Value::Bool(v));
    Type__decode__def(Type::Bool, Type__encode(Type::Bool, Value::Bool(v)));
}
pub proof fn fold_const<A, B>(s: Seq<A>, i: int, b: B, f: spec_fn(B, int, A) -> B)
    requires 0 <= i, forall|j: int| i <= j < s.len() ==> f(b, j, #[trigger] s[j]) == b
    ensures fold_from(s, i, b, f) == b
    decreases s.len() - i
{ if i < s.len() { fold_const(s, i + 1, b, f); } }
pub open spec fn ptr_ok(p: ThinPointer<Prov>) -> bool { in_range(IntType__usize_ty(), p.addr) }
/// an address and its provenance
pub proof fn addresses(p: ThinPointer<Prov>)
    requires target_ok(), ptr_ok(p)
    ensures encode_ptr(p).s.len() == T__PTR_SIZE().raw, decode_ptr(encode_ptr(p)) == Some(p),
{
    let t = IntType__usize_ty();
    int_bytes(T__ENDIANNESS(), t, p.addr);
    let b = Endianness__encode(T__ENDIANNESS(), t.signed, t.size, p.addr)->0;
    let e = encode_ptr(p);
    assert forall|k: int| 0 <= k < e.s.len() implies #[trigger] e.s[k] == AbstractByte::Init(b.s[k], match p.provenance { Some(q) => Some(ProvenanceFrag { provenance: q, position: k }), None => None }) by { }
    let f = |b: AbstractByte<Prov>| { AbstractByte__data::<Prov>(b) };
    assert forall|k: int| 0 <= k < e.s.len() implies f(#[trigger] e.s[k]) == Some(b.s[k]) by { }
    assert(List__try_map_opt(e, f)->0.s =~= b.s);
    let g = |acc: Option<Prov>, idx: int, byte: AbstractByte<Prov>| { match AbstractByte__provenance_frag::<Prov>(byte) { Some(frag_2) => { if (frag_2.position == idx) { if (Some(frag_2.provenance) == acc) { acc } else { None } } else { None } }
_ => { None } } };
    assert forall|k: int| 0 <= k < e.s.len() implies g(p.provenance, k, #[trigger] e.s[k]) == p.provenance by { }
    fold_const(e.s, 0, p.provenance, g);
}
pub open spec fn meta_ok(k: PointerMetaKind, m: Option<PointerMeta<Prov>>) -> bool {
    match (k, m) {
        (PointerMetaKind::None, None) => true,
        (PointerMetaKind::ElementCount, Some(PointerMeta::ElementCount(n))) => in_range(IntType__usize_ty(), n),
        (PointerMetaKind::VTablePointer(_), Some(PointerMeta::VTablePointer(p))) => ptr_ok(p),
        _ => false,
    }
}
pub proof fn thin_pointers(pt: PtrType, p: ThinPointer<Prov>)
    requires target_ok(), ptr_ok(p), PtrType__meta_kind(pt) == PointerMetaKind::None
    ensures survives(Type::Ptr(pt), Value::Ptr(Pointer { thin_pointer: p, metadata: None })), Type__encode(Type::Ptr(pt), Value::Ptr(Pointer { thin_pointer: p, metadata: None })) == encode_ptr(p),
{
    addresses(p);
    Type__encode__def(Type::Ptr(pt), Value::Ptr(Pointer { thin_pointer: p, metadata: None }));
    Type__decode__def(Type::Ptr(pt), encode_ptr(p));
}

// ---------------------------------------------------------------- compound types
/// byte range [a, a+n) has no byte in common with [b, b+m)
pub open spec fn off(a: int, n: int, b: int, m: int) -> bool { a + n <= b || b + m <= a }
pub open spec fn sliced(b: List<AbstractByte<Prov>>, at: int, n: int) -> List<AbstractByte<Prov>> { List { s: b.s.subrange(at, at + n) } }
pub open spec fn blank(n: int) -> List<AbstractByte<Prov>> { List__from_elem::<AbstractByte<Prov>>(AbstractByte::Uninit, n) }
/// fields lie inside the value, do not overlap, and have a fixed size
pub open spec fn fields_apart(f: Seq<(Size, Type)>, n: int) -> bool {
    &&& forall|i: int| 0 <= i < f.len() ==> 0 <= (#[trigger] f[i]).0.raw && 0 <= lay_size(f[i].1) && f[i].0.raw + lay_size(f[i].1) <= n
    &&& forall|i: int, j: int| 0 <= i < j < f.len() ==> off((#[trigger] f[i]).0.raw, lay_size(f[i].1), (#[trigger] f[j]).0.raw, lay_size(f[j].1))
}
pub open spec fn field_bytes(z: ((Size, Type), Value)) -> List<AbstractByte<Prov>> { Type__encode(z.0.1, z.1) }
/// writing one field after another leaves each field's bytes in its place and every other byte as it was
pub proof fn write_fields(z: List<((Size, Type), Value)>, i: int, b: List<AbstractByte<Prov>>)
    requires 0 <= i <= z.s.len(),
        forall|j: int| i <= j < z.s.len() ==> field_bytes(#[trigger] z.s[j]).s.len() == lay_size(z.s[j].0.1) && 0 <= z.s[j].0.0.raw && z.s[j].0.0.raw + lay_size(z.s[j].0.1) <= b.s.len(),
        forall|j: int, k: int| i <= j < k < z.s.len() ==> off((#[trigger] z.s[j]).0.0.raw, lay_size(z.s[j].0.1), (#[trigger] z.s[k]).0.0.raw, lay_size(z.s[k].0.1)),
    ensures ({
        let r = Type__encode__loop1(z, i, b);
        &&& r.s.len() == b.s.len()
        &&& forall|j: int| i <= j < z.s.len() ==> sliced(r, (#[trigger] z.s[j]).0.0.raw, lay_size(z.s[j].0.1)).s =~= field_bytes(z.s[j]).s
        &&& forall|x: int| 0 <= x < b.s.len() && (forall|j: int| i <= j < z.s.len() ==> off(x, 1, (#[trigger] z.s[j]).0.0.raw, lay_size(z.s[j].0.1))) ==> #[trigger] r.s[x] == b.s[x]
    })
    decreases z.s.len() - i
{
    Type__encode__loop1__def(z, i, b);
    if i < z.s.len() {
        let o = z.s[i].0.0.raw; let n = lay_size(z.s[i].0.1);
        let c = List__write_subslice_at_index::<AbstractByte<Prov>>(b, o, field_bytes(z.s[i]));
        write_fields(z, i + 1, c);
        let r = Type__encode__loop1(z, i + 1, c);
        assert forall|x: int| o <= x < o + n implies r.s[x] == c.s[x] by {
            assert forall|j: int| i + 1 <= j < z.s.len() implies off(x, 1, (#[trigger] z.s[j]).0.0.raw, lay_size(z.s[j].0.1)) by { assert(off(z.s[i].0.0.raw, n, z.s[j].0.0.raw, lay_size(z.s[j].0.1))); }
        }
        assert(sliced(r, o, n).s =~= field_bytes(z.s[i]).s);
    }
}
/// reading the fields back
pub proof fn read_fields(f: List<(Size, Type)>, i: int, b: List<AbstractByte<Prov>>, acc: List<Value>, vs: List<Value>)
    requires 0 <= i <= f.s.len(), vs.s.len() == f.s.len(), acc.s =~= vs.s.take(i),
        forall|j: int| i <= j < f.s.len() ==> Type__decode((#[trigger] f.s[j]).1, sliced(b, f.s[j].0.raw, lay_size(f.s[j].1))) == Some(vs.s[j]),
    ensures Type__decode__loop1(f, i, b, acc) == Flow::<Option<Value>, List<Value>>::Cont(vs)
    decreases f.s.len() - i
{
    Type__decode__loop1__def(f, i, b, acc);
    if i < f.s.len() {
        assert(acc.s.push(vs.s[i]) =~= vs.s.take(i + 1));
        read_fields(f, i + 1, b, List { s: acc.s.push(vs.s[i]) }, vs);
    } else { assert(acc.s =~= vs.s); }
}
pub open spec fn head_size(h: TupleHeadLayout) -> int { TupleHeadLayout__head_size_and_align(h).0.raw }
/// structs and tuples whose fields survive; padding is uninitialised
pub proof fn structs(f: List<(Size, Type)>, h: TupleHeadLayout, vs: List<Value>)
    requires head_size(h) >= 0, fields_apart(f.s, head_size(h)), vs.s.len() == f.s.len(), forall|j: int| 0 <= j < f.s.len() ==> survives((#[trigger] f.s[j]).1, vs.s[j])
    ensures survives(Type::Tuple { sized_fields: f, sized_head_layout: h, unsized_field: Box::new(None) }, Value::Tuple(vs)), ({
        let e = Type__encode(Type::Tuple { sized_fields: f, sized_head_layout: h, unsized_field: Box::new(None) }, Value::Tuple(vs));
        &&& forall|j: int| 0 <= j < f.s.len() ==> sliced(e, (#[trigger] f.s[j]).0.raw, lay_size(f.s[j].1)) == Type__encode(f.s[j].1, vs.s[j])
        &&& forall|x: int| 0 <= x < head_size(h) && (forall|j: int| 0 <= j < f.s.len() ==> off(x, 1, (#[trigger] f.s[j]).0.raw, lay_size(f.s[j].1))) ==> #[trigger] e.s[x] is Uninit
    })
{
    let t = Type::Tuple { sized_fields: f, sized_head_layout: h, unsized_field: Box::new(None) };
    let z = List__zip::<(Size, Type), Value>(f, vs);
    let n = head_size(h);
    assert forall|j: int| 0 <= j < z.s.len() implies field_bytes(#[trigger] z.s[j]).s.len() == lay_size(z.s[j].0.1) && 0 <= z.s[j].0.0.raw && z.s[j].0.0.raw + lay_size(z.s[j].0.1) <= n by { assert(z.s[j] == (f.s[j], vs.s[j])); }
    assert forall|j: int, k: int| 0 <= j < k < z.s.len() implies off((#[trigger] z.s[j]).0.0.raw, lay_size(z.s[j].0.1), (#[trigger] z.s[k]).0.0.raw, lay_size(z.s[k].0.1)) by { assert(z.s[j] == (f.s[j], vs.s[j]) && z.s[k] == (f.s[k], vs.s[k])); }
    write_fields(z, 0, blank(n));
    Type__encode__def(t, Value::Tuple(vs));
    let e = Type__encode(t, Value::Tuple(vs));
    assert forall|j: int| 0 <= j < f.s.len() implies sliced(e, (#[trigger] f.s[j]).0.raw, lay_size(f.s[j].1)) == Type__encode(f.s[j].1, vs.s[j]) by { assert(z.s[j] == (f.s[j], vs.s[j])); assert(sliced(e, z.s[j].0.0.raw, lay_size(z.s[j].0.1)).s =~= field_bytes(z.s[j]).s); }
    read_fields(f, 0, e, List__new::<Value>(), vs);
    Type__decode__def(t, e);
    assert forall|x: int| 0 <= x < n && (forall|j: int| 0 <= j < f.s.len() ==> off(x, 1, (#[trigger] f.s[j]).0.raw, lay_size(f.s[j].1))) implies #[trigger] e.s[x] is Uninit by {
        assert forall|j: int| 0 <= j < z.s.len() implies off(x, 1, (#[trigger] z.s[j]).0.0.raw, lay_size(z.s[j].0.1)) by { assert(z.s[j].0 == f.s[j]); }
        assert(e.s[x] == blank(n).s[x]);
    }
}
/// a wide pointer is stored as its address followed by its metadata
pub proof fn wide_pointers(pt: PtrType, p: Pointer<Prov>)
    requires target_ok(), ptr_ok(p.thin_pointer), PtrType__meta_kind(pt) != PointerMetaKind::None, meta_ok(PtrType__meta_kind(pt), p.metadata), T__PTR_ALIGN().raw > 0, (2 * T__PTR_SIZE().raw) % T__PTR_ALIGN().raw == 0
    ensures survives(Type::Ptr(pt), Value::Ptr(p)), sliced(Type__encode(Type::Ptr(pt), Value::Ptr(p)), 0, T__PTR_SIZE().raw) == encode_ptr(p.thin_pointer),
{
    let k = PtrType__meta_kind(pt); let n = T__PTR_SIZE().raw;
    let raw = PtrType::Raw { meta_kind: PointerMetaKind::None };
    let pair = PtrType__as_wide_pair(pt)->0;
    let f = pair->sized_fields; let h = pair->sized_head_layout;
    let thin = Value::Ptr(Pointer { thin_pointer: p.thin_pointer, metadata: None });
    let mv = PointerMetaKind__encode_as_value(k, p.metadata);
    let vs = List__push::<Value>(List__push::<Value>(List__new::<Value>(), thin), mv);
    thin_pointers(raw, p.thin_pointer);
    match p.metadata {
        Some(PointerMeta::ElementCount(c)) => { integers(IntType__usize_ty(), c); }
        Some(PointerMeta::VTablePointer(v)) => { match k { PointerMetaKind::VTablePointer(t) => { thin_pointers(PtrType::VTablePtr(t), v); } _ => { } } }
        None => { }
    }
    assert(f.s =~= seq![(Size { raw: 0 }, Type::Ptr(raw)), (T__PTR_SIZE(), PointerMetaKind__ty(k))]);
    assert(vs.s =~= seq![thin, mv]);
    assert(lay_size(Type::Ptr(raw)) == n && lay_size(PointerMetaKind__ty(k)) == n);
    assert(int__next_multiple_of(2 * n, T__PTR_ALIGN().raw) == 2 * n) by { multiple(2 * n, T__PTR_ALIGN().raw); }
    assert(size_mul(T__PTR_SIZE(), 2).raw == 2 * n);
    assert(head_size(h) == 2 * n);
    assert forall|j: int| 0 <= j < f.s.len() implies survives((#[trigger] f.s[j]).1, vs.s[j]) by { assert(j == 0 || j == 1); }
    structs(f, h, vs);
    assert(pair == Type::Tuple { sized_fields: f, sized_head_layout: h, unsized_field: Box::new(None) });
    Type__encode__def(Type::Ptr(pt), Value::Ptr(p));
    let e = Type__encode(Type::Ptr(pt), Value::Ptr(p));
    assert(e == Type__encode(pair, Value::Tuple(vs)));
    Type__decode__def(Type::Ptr(pt), e);
    assert(sliced(e, f.s[0].0.raw, lay_size(f.s[0].1)) == Type__encode(f.s[0].1, vs.s[0]));
}
pub proof fn multiple(a: int, b: int)
    requires b > 0, a >= 0, a % b == 0
    ensures int__next_multiple_of(a, b) == a
{
    lemma_fundamental_div_mod(a, b);
    let q = a / b;
    assert(a == b * q);
    assert(-a == (-q) * b) by (nonlinear_arith) requires a == b * q;
    lemma_fundamental_div_mod_converse(-a, b, -q, 0);
    assert(q * b == a) by (nonlinear_arith) requires a == b * q;
}

// ---------------------------------------------------------------- arrays
/// where the j-th of elements of n bytes starts
pub open spec fn nth(j: int, n: int) -> int { j * n }
pub open spec fn elem_at(r: List<AbstractByte<Prov>>, j: int, n: int, b: List<AbstractByte<Prov>>) -> bool { 0 <= nth(j, n) && nth(j, n) + n <= r.s.len() && sliced(r, nth(j, n), n) == b }
pub proof fn write_elems(vs: List<Value>, i: int, t: Type, acc: List<AbstractByte<Prov>>, n: int)
    requires 0 <= i <= vs.s.len(), n >= 0, acc.s.len() == nth(i, n), forall|j: int| i <= j < vs.s.len() ==> Type__encode(t, #[trigger] vs.s[j]).s.len() == n
    ensures
        Type__encode__loop2(vs, i, t, acc).s.len() == nth(vs.s.len() as int, n),
        Type__encode__loop2(vs, i, t, acc).s.take(acc.s.len() as int) =~= acc.s,
        forall|j: int| i <= j < vs.s.len() ==> elem_at(Type__encode__loop2(vs, i, t, acc), j, n, Type__encode(t, #[trigger] vs.s[j])),
    decreases vs.s.len() - i
{
    Type__encode__loop2__def(vs, i, t, acc);
    if i < vs.s.len() {
        let b = Type__encode(t, vs.s[i]);
        let c = List { s: acc.s + b.s };
        assert(nth(i + 1, n) == nth(i, n) + n) by (nonlinear_arith);
        assert(nth(i, n) >= 0) by (nonlinear_arith) requires i >= 0, n >= 0;
        write_elems(vs, i + 1, t, c, n);
        let r = Type__encode__loop2(vs, i + 1, t, c);
        assert(nth(vs.s.len() as int, n) >= nth(i + 1, n)) by (nonlinear_arith) requires vs.s.len() >= i + 1, n >= 0;
        assert(List__append::<AbstractByte<Prov>>(acc, b) == c);
        assert(Type__encode__loop2(vs, i, t, acc) == r);
        assert forall|x: int| 0 <= x < c.s.len() implies #[trigger] r.s[x] == c.s[x] by { assert(r.s.take(c.s.len() as int)[x] == r.s[x]); }
        assert(r.s.take(acc.s.len() as int) =~= acc.s);
        assert(sliced(r, nth(i, n), n).s =~= b.s);
    } else { assert(acc.s.take(acc.s.len() as int) =~= acc.s); }
}
pub proof fn read_elems(cs: List<List<AbstractByte<Prov>>>, i: int, t: Type, acc: List<Value>, vs: List<Value>)
    requires 0 <= i <= cs.s.len(), vs.s.len() == cs.s.len(), acc.s =~= vs.s.take(i), forall|j: int| i <= j < cs.s.len() ==> Type__decode(t, #[trigger] cs.s[j]) == Some(vs.s[j]),
    ensures Type__decode__loop2(cs, i, t, acc) == Flow::<Option<Value>, List<Value>>::Cont(vs)
    decreases cs.s.len() - i
{
    Type__decode__loop2__def(cs, i, t, acc);
    if i < cs.s.len() {
        assert(acc.s.push(vs.s[i]) =~= vs.s.take(i + 1));
        read_elems(cs, i + 1, t, List { s: acc.s.push(vs.s[i]) }, vs);
    } else { assert(acc.s =~= vs.s); }
}
/// arrays: the elements one after another
pub proof fn arrays(t: Type, count: int, vs: List<Value>)
    requires lay_size(t) >= 0, vs.s.len() == count, forall|j: int| 0 <= j < count ==> survives(t, #[trigger] vs.s[j])
    ensures survives(Type::Array { elem: Box::new(t), count }, Value::Tuple(vs)), ({
        let e = Type__encode(Type::Array { elem: Box::new(t), count }, Value::Tuple(vs));
        forall|j: int| 0 <= j < count ==> elem_at(e, j, lay_size(t), Type__encode(t, #[trigger] vs.s[j]))
    })
{
    let a = Type::Array { elem: Box::new(t), count }; let n = lay_size(t);
    write_elems(vs, 0, t, List__new(), n);
    Type__encode__def(a, Value::Tuple(vs));
    let e = Type__encode(a, Value::Tuple(vs));
    assert(n * count == nth(count, n) && n * count >= 0) by (nonlinear_arith) requires n >= 0, count >= 0;
    let cs = List__map(List__range(0int, count), |i: int| { List__subslice_with_length::<AbstractByte<Prov>>(e, (i * n), n) });
    assert forall|j: int| 0 <= j < cs.s.len() implies Type__decode(t, #[trigger] cs.s[j]) == Some(vs.s[j]) by { assert(cs.s[j] == sliced(e, nth(j, n), n)); assert(survives(t, vs.s[j])); assert(elem_at(e, j, n, Type__encode(t, vs.s[j]))); }
    read_elems(cs, 0, t, List__new::<Value>(), vs);
    Type__decode__def(a, e);
    reveal_with_fuel(Type__layout, 2);
}

// ---------------------------------------------------------------- unions
/// chunks lie inside the union and do not overlap
pub open spec fn chunks_apart(c: Seq<(Size, Size)>, n: int) -> bool {
    &&& forall|i: int| 0 <= i < c.len() ==> 0 <= (#[trigger] c[i]).0.raw && 0 <= c[i].1.raw && c[i].0.raw + c[i].1.raw <= n
    &&& forall|i: int, j: int| 0 <= i < j < c.len() ==> off((#[trigger] c[i]).0.raw, c[i].1.raw, (#[trigger] c[j]).0.raw, c[j].1.raw)
}
pub proof fn write_chunks(z: List<((Size, Size), List<AbstractByte<Prov>>)>, i: int, b: List<AbstractByte<Prov>>)
    requires 0 <= i <= z.s.len(),
        forall|j: int| i <= j < z.s.len() ==> (#[trigger] z.s[j]).1.s.len() == z.s[j].0.1.raw && 0 <= z.s[j].0.0.raw && z.s[j].0.0.raw + z.s[j].0.1.raw <= b.s.len(),
        forall|j: int, k: int| i <= j < k < z.s.len() ==> off((#[trigger] z.s[j]).0.0.raw, z.s[j].0.1.raw, (#[trigger] z.s[k]).0.0.raw, z.s[k].0.1.raw),
    ensures ({
        let r = Type__encode__loop3(z, i, b);
        &&& r.s.len() == b.s.len()
        &&& forall|j: int| i <= j < z.s.len() ==> sliced(r, (#[trigger] z.s[j]).0.0.raw, z.s[j].0.1.raw).s =~= z.s[j].1.s
        &&& forall|x: int| 0 <= x < b.s.len() && (forall|j: int| i <= j < z.s.len() ==> off(x, 1, (#[trigger] z.s[j]).0.0.raw, z.s[j].0.1.raw)) ==> #[trigger] r.s[x] == b.s[x]
    })
    decreases z.s.len() - i
{
    Type__encode__loop3__def(z, i, b);
    if i < z.s.len() {
        let o = z.s[i].0.0.raw; let n = z.s[i].0.1.raw;
        let c = List__write_subslice_at_index::<AbstractByte<Prov>>(b, o, z.s[i].1);
        write_chunks(z, i + 1, c);
        let r = Type__encode__loop3(z, i + 1, c);
        assert forall|x: int| o <= x < o + n implies r.s[x] == c.s[x] by {
            assert forall|j: int| i + 1 <= j < z.s.len() implies off(x, 1, (#[trigger] z.s[j]).0.0.raw, z.s[j].0.1.raw) by { assert(off(z.s[i].0.0.raw, n, z.s[j].0.0.raw, z.s[j].0.1.raw)); }
        }
        assert(sliced(r, o, n).s =~= z.s[i].1.s);
    }
}
pub open spec fn chunk_bytes(c: Seq<(Size, Size)>, b: List<AbstractByte<Prov>>) -> Seq<List<AbstractByte<Prov>>> { Seq::new(c.len(), |j: int| sliced(b, c[j].0.raw, c[j].1.raw)) }
pub proof fn read_chunks(c: List<(Size, Size)>, i: int, b: List<AbstractByte<Prov>>, acc: List<List<AbstractByte<Prov>>>)
    requires 0 <= i <= c.s.len(), acc.s =~= chunk_bytes(c.s, b).take(i)
    ensures Type__decode__loop3(c, i, b, acc).s =~= chunk_bytes(c.s, b)
    decreases c.s.len() - i
{
    Type__decode__loop3__def(c, i, b, acc);
    if i < c.s.len() {
        let d = sliced(b, c.s[i].0.raw, c.s[i].1.raw);
        assert(acc.s.push(d) =~= chunk_bytes(c.s, b).take(i + 1));
        read_chunks(c, i + 1, b, List { s: acc.s.push(d) });
    }
}
pub open spec fn union_ty(f: List<(Size, Type)>, c: List<(Size, Size)>, n: Size, al: Align) -> Type { Type::Union { fields: f, chunks: c, size: n, align: al } }
/// loading a union and storing it again preserves every byte of every chunk, uninitialised ones and provenance included, and blanks the rest
pub proof fn union_copy(f: List<(Size, Type)>, c: List<(Size, Size)>, n: Size, al: Align, b: List<AbstractByte<Prov>>)
    requires n.raw >= 0, b.s.len() == n.raw, chunks_apart(c.s, n.raw)
    ensures Type__decode(union_ty(f, c, n, al), b) is Some, ({
        let r = Type__encode(union_ty(f, c, n, al), Type__decode(union_ty(f, c, n, al), b)->0);
        &&& r.s.len() == n.raw
        &&& forall|j: int, x: int| #![trigger c.s[j], r.s[x]] 0 <= j < c.s.len() && c.s[j].0.raw <= x < c.s[j].0.raw + c.s[j].1.raw ==> r.s[x] == b.s[x]
        &&& forall|x: int| 0 <= x < n.raw && (forall|j: int| 0 <= j < c.s.len() ==> off(x, 1, (#[trigger] c.s[j]).0.raw, c.s[j].1.raw)) ==> #[trigger] r.s[x] is Uninit
    })
{
    let t = union_ty(f, c, n, al);
    Type__decode__def(t, b);
    read_chunks(c, 0, b, List__new());
    let v = Type__decode(t, b)->0;
    let d = List { s: chunk_bytes(c.s, b) };
    assert(v == Value::Union(d)) by { assert(v->Union_0.s =~= d.s); }
    Type__encode__def(t, v);
    let z = List__zip::<(Size, Size), List<AbstractByte<Prov>>>(c, d);
    assert forall|j: int| 0 <= j < z.s.len() implies (#[trigger] z.s[j]).1.s.len() == z.s[j].0.1.raw && 0 <= z.s[j].0.0.raw && z.s[j].0.0.raw + z.s[j].0.1.raw <= n.raw by { assert(z.s[j] == (c.s[j], d.s[j])); }
    assert forall|j: int, k: int| 0 <= j < k < z.s.len() implies off((#[trigger] z.s[j]).0.0.raw, z.s[j].0.1.raw, (#[trigger] z.s[k]).0.0.raw, z.s[k].0.1.raw) by { assert(z.s[j].0 == c.s[j] && z.s[k].0 == c.s[k]); }
    write_chunks(z, 0, blank(n.raw));
    let r = Type__encode(t, v);
    assert forall|j: int, x: int| #![trigger c.s[j], r.s[x]] 0 <= j < c.s.len() && c.s[j].0.raw <= x < c.s[j].0.raw + c.s[j].1.raw implies r.s[x] == b.s[x] by {
        assert(z.s[j] == (c.s[j], d.s[j]));
        let y = sliced(r, z.s[j].0.0.raw, z.s[j].0.1.raw);
        assert(y.s =~= z.s[j].1.s);
        assert(y.s[x - c.s[j].0.raw] == r.s[x]);
        assert(d.s[j].s[x - c.s[j].0.raw] == b.s[x]);
    }
    assert forall|x: int| 0 <= x < n.raw && (forall|j: int| 0 <= j < c.s.len() ==> off(x, 1, (#[trigger] c.s[j]).0.raw, c.s[j].1.raw)) implies #[trigger] r.s[x] is Uninit by {
        assert forall|j: int| 0 <= j < z.s.len() implies off(x, 1, (#[trigger] z.s[j]).0.0.raw, z.s[j].0.1.raw) by { assert(z.s[j].0 == c.s[j]); }
        assert(r.s[x] == blank(n.raw).s[x]);
    }
}
pub proof fn unions(f: List<(Size, Type)>, c: List<(Size, Size)>, n: Size, al: Align, d: List<List<AbstractByte<Prov>>>)
    requires n.raw >= 0, chunks_apart(c.s, n.raw), d.s.len() == c.s.len(), forall|j: int| 0 <= j < d.s.len() ==> (#[trigger] d.s[j]).s.len() == c.s[j].1.raw
    ensures survives(union_ty(f, c, n, al), Value::Union(d))
{
    let t = union_ty(f, c, n, al);
    Type__encode__def(t, Value::Union(d));
    let z = List__zip::<(Size, Size), List<AbstractByte<Prov>>>(c, d);
    assert forall|j: int| 0 <= j < z.s.len() implies (#[trigger] z.s[j]).1.s.len() == z.s[j].0.1.raw && 0 <= z.s[j].0.0.raw && z.s[j].0.0.raw + z.s[j].0.1.raw <= n.raw by { assert(z.s[j] == (c.s[j], d.s[j])); }
    assert forall|j: int, k: int| 0 <= j < k < z.s.len() implies off((#[trigger] z.s[j]).0.0.raw, z.s[j].0.1.raw, (#[trigger] z.s[k]).0.0.raw, z.s[k].0.1.raw) by { assert(z.s[j].0 == c.s[j] && z.s[k].0 == c.s[k]); }
    write_chunks(z, 0, blank(n.raw));
    let r = Type__encode(t, Value::Union(d));
    Type__decode__def(t, r);
    read_chunks(c, 0, r, List__new());
    assert forall|j: int| 0 <= j < c.s.len() implies #[trigger] chunk_bytes(c.s, r)[j] == d.s[j] by { assert(z.s[j] == (c.s[j], d.s[j])); assert(sliced(r, z.s[j].0.0.raw, z.s[j].0.1.raw).s =~= z.s[j].1.s); }
    assert(chunk_bytes(c.s, r) =~= d.s);
}

// ---------------------------------------------------------------- enums
pub open spec fn write_tag(b: List<AbstractByte<Prov>>, tagger: Map<Size, (IntType, int)>) -> List<AbstractByte<Prov>> {
    encode_discriminant::<List<AbstractByte<Prov>>>(b, |bytes_5: List<AbstractByte<Prov>>, offset_3: Size, value_bytes: List<AbstractByte<Prov>>| { let bytes_5 = List__write_subslice_at_index::<AbstractByte<Prov>>(bytes_5, Size__bytes(offset_3), value_bytes);
(bytes_5, Ok(())) }, tagger).0
}
pub open spec fn read_tag(b: List<AbstractByte<Prov>>, d: Discriminator) -> Option<int> {
    Result__unwrap::<Option<int>, TerminationInfo>(decode_discriminant::<()>((), |nost: (), offset_3: Size, size_6: Size| { (nost, Ok(List__subslice_with_length::<AbstractByte<Prov>>(b, Size__bytes(offset_3), Size__bytes(size_6)))) }, d).1)
}
/// an enum value is stored as its variant's data with the tag written over it; it survives if the tag identifies the variant and does not damage the data (C18 shows when that is so)
pub proof fn enums(vr: Map<int, Variant>, dt: IntType, dr: Discriminator, n: Size, al: Align, d: int, v: Value)
    requires n.raw >= 0, Type__encode(vr.m[d].ty, v).s.len() == n.raw, ({
        let b = write_tag(Type__encode(vr.m[d].ty, v), vr.m[d].tagger);
        b.s.len() == n.raw && read_tag(b, dr) == Some(d) && Type__decode(vr.m[d].ty, b) == Some(v)
    })
    ensures survives(Type::Enum { variants: vr, discriminant_ty: dt, discriminator: dr, size: n, align: al }, Value::Variant { discriminant: d, data: Box::new(v) })
{
    let t = Type::Enum { variants: vr, discriminant_ty: dt, discriminator: dr, size: n, align: al };
    let x = Value::Variant { discriminant: d, data: Box::new(v) };
    Type__encode__def(t, x);
    let b = write_tag(Type__encode(vr.m[d].ty, v), vr.m[d].tagger);
    assert(Type__encode(t, x) == b);
    Type__decode__def(t, b);
}

// ---------------------------------------------------------------- all types together
/// v is a value of type t
pub open spec fn value_of(t: Type, v: Value) -> bool
    decreases v
{
    match (t, v) {
        (Type::Int(i), Value::Int(x)) => int_wf(i) && in_range(i, x),
        (Type::Bool, Value::Bool(_)) => true,
        (Type::Ptr(pt), Value::Ptr(p)) => ptr_ok(p.thin_pointer) && meta_ok(PtrType__meta_kind(pt), p.metadata),
        (Type::Tuple { sized_fields: f, sized_head_layout: h, unsized_field: u }, Value::Tuple(vs)) => {
            *u is None && head_size(h) >= 0 && fields_apart(f.s, head_size(h)) && vs.s.len() == f.s.len() && forall|j: int| 0 <= j < vs.s.len() ==> value_of(f.s[j].1, #[trigger] vs.s[j])
        }
        (Type::Array { elem, count }, Value::Tuple(vs)) => lay_size(*elem) >= 0 && vs.s.len() == count && forall|j: int| 0 <= j < vs.s.len() ==> value_of(*elem, #[trigger] vs.s[j]),
        (Type::Union { fields: f, chunks: c, size: n, align: al }, Value::Union(d)) => {
            n.raw >= 0 && chunks_apart(c.s, n.raw) && d.s.len() == c.s.len() && forall|j: int| 0 <= j < d.s.len() ==> (#[trigger] d.s[j]).s.len() == c.s[j].1.raw
        }
        (Type::Enum { variants: vr, discriminant_ty: dt, discriminator: dr, size: n, align: al }, Value::Variant { discriminant: d, data }) => {
            &&& value_of(vr.m[d].ty, *data) && n.raw >= 0 && lay_size(vr.m[d].ty) == n.raw
            &&& ({
                let b = write_tag(Type__encode(vr.m[d].ty, *data), vr.m[d].tagger);
                b.s.len() == n.raw && read_tag(b, dr) == Some(d) && Type__decode(vr.m[d].ty, b) == Type__decode(vr.m[d].ty, Type__encode(vr.m[d].ty, *data))
            })
        }
        _ => false,
    }
}
/// every value of every type survives being stored and loaded
pub proof fn every_value(t: Type, v: Value)
    requires target_ok(), T__PTR_ALIGN().raw > 0, (2 * T__PTR_SIZE().raw) % T__PTR_ALIGN().raw == 0, value_of(t, v)
    ensures survives(t, v)
    decreases v
{
    match (t, v) {
        (Type::Int(i), Value::Int(x)) => { integers(i, x); }
        (Type::Bool, Value::Bool(b)) => { booleans(b); }
        (Type::Ptr(pt), Value::Ptr(p)) => { if PtrType__meta_kind(pt) == PointerMetaKind::None { thin_pointers(pt, p.thin_pointer); } else { wide_pointers(pt, p); } }
        (Type::Tuple { sized_fields: f, sized_head_layout: h, unsized_field: u }, Value::Tuple(vs)) => {
            assert forall|j: int| 0 <= j < f.s.len() implies survives((#[trigger] f.s[j]).1, vs.s[j]) by { assert(value_of(f.s[j].1, vs.s[j])); every_value(f.s[j].1, vs.s[j]); }
            structs(f, h, vs);
        }
        (Type::Array { elem, count }, Value::Tuple(vs)) => {
            assert forall|j: int| 0 <= j < count implies survives(*elem, #[trigger] vs.s[j]) by { every_value(*elem, vs.s[j]); }
            arrays(*elem, count, vs);
        }
        (Type::Union { fields: f, chunks: c, size: n, align: al }, Value::Union(d)) => { unions(f, c, n, al, d); }
        (Type::Enum { variants: vr, discriminant_ty: dt, discriminator: dr, size: n, align: al }, Value::Variant { discriminant: d, data }) => {
            every_value(vr.m[d].ty, *data);
            enums(vr, dt, dr, n, al, d, *data);
        }
        _ => { }
    }
}
/// transmuting is storing at the one type and loading at the other: no byte changes in between, and bytes that are no value of the new type are undefined behaviour
pub proof fn transmute(m: Machine, v: Value, a: Type, b: Type)
    ensures ({
        let r = Machine__eval_cast_op(m, CastOp::Transmute(b), (v, a));
        if LayoutStrategy__expect_size(Type__layout(a), Str) != LayoutStrategy__expect_size(Type__layout(b), Str) { is_ub(r) }
        else {
            match Type__decode(b, Type__encode(a, v)) {
                None => is_ub(r),
                Some(w) => match Machine__check_value(m, w, b) { Ok(_) => r == Ok::<(Value, Type), TerminationInfo>((w, b)), Err(e) => r is Err && r->Err_0 == e },
            }
        }
    })
{ }
/// a typed store writes exactly the value's bytes, and a typed load of these bytes at the type yields the value
pub proof fn store_load(m: Machine, q: Machine, p: ThinPointer<Prov>, t: Type, v: Value, al: Align, at: Atomicity)
    requires survives(t, v)
    ensures ({
        let (n, r) = Machine__typed_store(m, p, v, t, al, at);
        n == (Machine { mem: ConcurrentMemory__store(m.mem, p, Type__encode(t, v), al, at).0, ..m })
    }), ({
        let (mem, b) = ConcurrentMemory__load(q.mem, p, LayoutStrategy__expect_size(Type__layout(t), Str), al, at);
        let (n, r) = Machine__typed_load(q, p, t, al, at);
        b is Ok && b->Ok_0 == Type__encode(t, v) && Machine__check_value(Machine { mem, ..q }, v, t) is Ok ==> r == Ok::<Value, TerminationInfo>(v)
    })
{ }

// ---------------------------------------------------------------- the MIR translation of aggregates
pub open spec fn ty_of_rvalue(f: FnCtxt, r: SmRvalue, sp: RsSpan) -> Type { Ctxt__translate_ty_smir(f.cx, SmRvalue__ty(r, f.locals_smir)->0, sp).1 }
pub proof fn mir_operands(f: FnCtxt, l: List<SmOperand>, i: int, sp: RsSpan, g: FnCtxt, acc: List<ValueExpr>)
    requires FnCtxt__translate_rvalue_smir__loop1_ok(l, i, sp, g, acc), 0 <= i <= l.s.len(), acc.s.len() == i, same_fn(f, g), tr_ops(f, l.s, acc.s, i)
    ensures ({ let out = FnCtxt__translate_rvalue_smir__loop1(l, i, sp, g, acc).1; out.s.len() == l.s.len() && tr_ops(f, l.s, out.s, l.s.len() as int) })
    decreases l.s.len() - i
{
    reveal_with_fuel(FnCtxt__translate_rvalue_smir__loop1, 2); reveal_with_fuel(FnCtxt__translate_rvalue_smir__loop1_ok, 2);
    if i < l.s.len() {
        let a = FnCtxt__translate_operand_smir(g, l.s[i], sp);
        let acc2 = List { s: acc.s.push(a.1) };
        assert forall|j: int| 0 <= j < i + 1 implies tr_op(f, l.s[j], #[trigger] acc2.s[j]) by { if j < i { assert(acc2.s[j] == acc.s[j]); } }
        mir_operands(f, l, i + 1, sp, a.0, acc2);
    }
}
/// a tuple, a structure or an array has exactly the operands named, in order
pub proof fn mir_aggregate(f: FnCtxt, k: SmAggregateKind, l: List<SmOperand>, sp: RsSpan)
    requires FnCtxt__translate_rvalue_smir_ok(f, SmRvalue::Aggregate(k, l), sp), ty_of_rvalue(f, SmRvalue::Aggregate(k, l), sp) is Tuple || ty_of_rvalue(f, SmRvalue::Aggregate(k, l), sp) is Array
    ensures ({
        let e = FnCtxt__translate_rvalue_smir(f, SmRvalue::Aggregate(k, l), sp).1;
        e is Tuple && e->Tuple_1 == ty_of_rvalue(f, SmRvalue::Aggregate(k, l), sp) && e->Tuple_0.s.len() == l.s.len() && tr_ops(f, l.s, e->Tuple_0.s, l.s.len() as int)
    })
{
    reveal(FnCtxt__translate_rvalue_smir); reveal(FnCtxt__translate_rvalue_smir_ok);
    let g = FnCtxt { cx: Ctxt__translate_ty_smir(f.cx, SmRvalue__ty(SmRvalue::Aggregate(k, l), f.locals_smir)->0, sp).0, ..f };
    mir_operands(f, l, 0, sp, g, List__new::<ValueExpr>());
}
/// a union has the field named, from the one operand
pub proof fn mir_union(f: FnCtxt, k: SmAggregateKind, l: List<SmOperand>, sp: RsSpan)
    requires FnCtxt__translate_rvalue_smir_ok(f, SmRvalue::Aggregate(k, l), sp), ty_of_rvalue(f, SmRvalue::Aggregate(k, l), sp) is Union
    ensures ({
        let e = FnCtxt__translate_rvalue_smir(f, SmRvalue::Aggregate(k, l), sp).1;
        e is Union && e->union_ty == ty_of_rvalue(f, SmRvalue::Aggregate(k, l), sp) && k is Adt && k->Adt_4 == Some(e->Union_field) && l.s.len() == 1 && tr_op(f, l.s[0], *e->expr)
    })
{
    reveal(FnCtxt__translate_rvalue_smir); reveal(FnCtxt__translate_rvalue_smir_ok);
}
/// a repeated operand fills an array of exactly the length the compiler says
pub proof fn mir_repeat(f: FnCtxt, x: SmOperand, n: SmTyConst, sp: RsSpan)
    requires FnCtxt__translate_rvalue_smir_ok(f, SmRvalue::Repeat(x, n), sp), SmTyConst__eval_target_usize(n)->0 >= 0
    ensures ({
        let e = FnCtxt__translate_rvalue_smir(f, SmRvalue::Repeat(x, n), sp).1;
        let c = SmTyConst__eval_target_usize(n)->0;
        &&& e is Tuple && e->Tuple_1 == (Type::Array { elem: Box::new(ty_of_op(f, x, sp)), count: c })
        &&& e->Tuple_0.s.len() == c && forall|i: int| 0 <= i < c ==> tr_op(f, x, #[trigger] e->Tuple_0.s[i])
    })
{
    reveal(FnCtxt__translate_rvalue_smir); reveal(FnCtxt__translate_rvalue_smir_ok);
}

// ---------------------------------------------------------------- which bytes of a union are kept
/// out is m with the bytes in p marked as well
pub open spec fn marked(m: Seq<bool>, out: Seq<bool>, p: spec_fn(int) -> bool) -> bool {
    out.len() == m.len() && forall|b: int| 0 <= b < m.len() ==> #[trigger] out[b] == (m[b] || p(b))
}
pub open spec fn run(off: int, len: int, b: int) -> bool { off <= b < off + len }
/// the discriminator reads byte b (branching at most n deep)
pub open spec fn disc_uses(d: Discriminator, b: int, n: nat) -> bool
    decreases n
{
    n > 0 && d is Branch && (run(d->offset.raw, d->value_type.size.raw, b) || disc_uses(*d->fallback, b, (n - 1) as nat)
        || exists|k: (int, int)| #[trigger] d->children.m.contains_key(k) && disc_uses(d->children.m[k], b, (n - 1) as nat))
}
pub open spec fn disc_deep(d: Discriminator, n: nat) -> bool
    decreases n
{
    n > 0 && (d is Branch ==> disc_deep(*d->fallback, (n - 1) as nat) && d->children.m.dom().finite() && forall|k: (int, int)| #[trigger] d->children.m.contains_key(k) ==> disc_deep(d->children.m[k], (n - 1) as nat))
}
/// the type nests at most n deep, and every size it needs is known
pub open spec fn deep(t: Type, n: nat) -> bool
    decreases n
{
    n > 0 && match t {
        Type::Tuple { sized_fields, .. } => forall|i: int| 0 <= i < sized_fields.s.len() ==> deep((#[trigger] sized_fields.s[i]).1, (n - 1) as nat),
        Type::Array { elem, .. } => deep(*elem, (n - 1) as nat),
        Type::Enum { variants, discriminator, .. } => variants.m.dom().finite() && disc_deep(discriminator, n)
            && forall|k: int| #[trigger] variants.m.contains_key(k) ==> deep(variants.m[k].ty, (n - 1) as nat) && variants.m[k].tagger.m.dom().finite(),
        _ => true,
    }
}
/// byte b of a value of the type can hold data: it is not padding
pub open spec fn uses(t: Type, b: int, n: nat) -> bool
    decreases n, 0int
{
    n > 0 && match t {
        Type::Int(i) => run(0, i.size.raw, b),
        Type::Bool => b == 0,
        Type::Ptr(_) => run(0, Type__layout(t)->Sized_0.raw, b),
        Type::Tuple { sized_fields, .. } => exists|i: int| 0 <= i < sized_fields.s.len() && (#[trigger] sized_fields.s[i]).0.raw <= b && uses(sized_fields.s[i].1, b - sized_fields.s[i].0.raw, (n - 1) as nat),
        Type::Union { chunks, .. } => exists|i: int| 0 <= i < chunks.s.len() && run((#[trigger] chunks.s[i]).0.raw, chunks.s[i].1.raw, b),
        Type::Array { elem, count } => exists|i: int| 0 <= i < count && #[trigger] elem_start(*elem, i) <= b && uses(*elem, b - elem_start(*elem, i), (n - 1) as nat),
        Type::Enum { variants, discriminator, .. } => disc_uses(discriminator, b, n) || exists|k: int| #[trigger] variants.m.contains_key(k) && (uses(variants.m[k].ty, b, (n - 1) as nat) || tags(variants.m[k].tagger, b)),
        _ => false,
    }
}
pub open spec fn elem_start(e: Type, i: int) -> int { Type__layout(e)->Sized_0.raw * i }
/// the tag of a variant is written to byte b
pub open spec fn tags(t: Map<Size, (IntType, int)>, b: int) -> bool { exists|o: Size| #[trigger] t.m.contains_key(o) && run(o.raw, t.m[o].0.size.raw, b) }
pub proof fn mark_size_loop(end: int, i: int, m: List<bool>)
    requires mini__mark_size__loop1_ok(end, i, m), 0 <= i
    ensures marked(m.s, mini__mark_size__loop1(end, i, m).s, |b: int| i <= b < end)
    decreases end - i
{
    reveal_with_fuel(mini__mark_size__loop1, 2); reveal_with_fuel(mini__mark_size__loop1_ok, 2);
    if i < end { mark_size_loop(end, i + 1, List__set::<bool>(m, i, true)); }
}
pub proof fn mark_size(size: Size, m: List<bool>)
    requires mini__mark_size_ok(size, m)
    ensures marked(m.s, mini__mark_size(size, m).s, |b: int| run(0, size.raw, b))
{ reveal(mini__mark_size); reveal(mini__mark_size_ok); mark_size_loop(size.raw, 0, m); }
pub open spec fn at_sub(m: List<bool>, off: int) -> List<bool> { List__subslice_with_length::<bool>(m, off, List__len::<bool>(m) - off) }
pub open spec fn shifted(p: spec_fn(int) -> bool, off: int) -> spec_fn(int) -> bool { |b: int| off <= b && p(b - off) }
/// marking a part from off on marks the part's bytes, moved by off
pub proof fn mark_at(m: List<bool>, off: int, out: List<bool>, p: spec_fn(int) -> bool)
    requires 0 <= off <= m.s.len(), marked(at_sub(m, off).s, out.s, p)
    ensures marked(m.s, List__write_subslice_at_index::<bool>(m, off, out).s, shifted(p, off))
{
    let w = List__write_subslice_at_index::<bool>(m, off, out).s;
    assert forall|b: int| 0 <= b < m.s.len() implies #[trigger] w[b] == (m.s[b] || shifted(p, off)(b)) by {
        if off <= b { assert(out.s[b - off] == (at_sub(m, off).s[b - off] || p(b - off))); }
    }
}
pub proof fn mark_then(m: Seq<bool>, a: Seq<bool>, b: Seq<bool>, p: spec_fn(int) -> bool, q: spec_fn(int) -> bool, r: spec_fn(int) -> bool)
    requires marked(m, a, p), marked(a, b, q), forall|x: int| #[trigger] r(x) == (p(x) || q(x))
    ensures marked(m, b, r)
{
    assert forall|x: int| 0 <= x < m.len() implies #[trigger] b[x] == (m[x] || r(x)) by { assert(a[x] == (m[x] || p(x))); }
}
/// the keys of a map, listed
pub proof fn keys_of<K, V>(m: Map<K, V>)
    requires m.m.dom().finite()
    ensures forall|j: int| 0 <= j < Map__keys(m).s.len() ==> m.m.contains_key(#[trigger] Map__keys(m).s[j]),
        forall|k: K| #[trigger] m.m.contains_key(k) ==> exists|j: int| 0 <= j < Map__keys(m).s.len() && #[trigger] Map__keys(m).s[j] == k,
{
    axiom_map_keys(m);
    let ks = Map__keys(m);
    assert forall|j: int| 0 <= j < ks.s.len() implies m.m.contains_key(#[trigger] ks.s[j]) by { assert(ks.s.contains(ks.s[j])); }
    assert forall|k: K| #[trigger] m.m.contains_key(k) implies exists|j: int| 0 <= j < ks.s.len() && #[trigger] ks.s[j] == k by { assert(ks.s.contains(k)); }
}
pub proof fn mark_disc_loop(l: List<Discriminator>, i: int, m: List<bool>, n: nat)
    requires mini__mark_discriminator__loop1_ok(l, i, m), 0 <= i <= l.s.len(), forall|j: int| i <= j < l.s.len() ==> disc_deep(#[trigger] l.s[j], n)
    ensures marked(m.s, mini__mark_discriminator__loop1(l, i, m).s, |b: int| exists|j: int| i <= j < l.s.len() && disc_uses(#[trigger] l.s[j], b, n))
    decreases n, l.s.len() - i + 1
{
    mini__mark_discriminator__loop1__def(l, i, m); mini__mark_discriminator__loop1_ok__def(l, i, m);
    if i < l.s.len() {
        let a = mini__mark_discriminator(l.s[i], m);
        mark_disc(l.s[i], m, n);
        mark_disc_loop(l, i + 1, a, n);
        mark_then(m.s, a.s, mini__mark_discriminator__loop1(l, i, m).s, |b: int| disc_uses(l.s[i], b, n), |b: int| exists|j: int| i + 1 <= j < l.s.len() && disc_uses(#[trigger] l.s[j], b, n), |b: int| exists|j: int| i <= j < l.s.len() && disc_uses(#[trigger] l.s[j], b, n));
    }
}
/// the bytes a discriminator reads are marked
pub proof fn mark_disc(d: Discriminator, m: List<bool>, n: nat)
    requires mini__mark_discriminator_ok(d, m), disc_deep(d, n)
    ensures marked(m.s, mini__mark_discriminator(d, m).s, |b: int| disc_uses(d, b, n))
    decreases n, 0int
{
    mini__mark_discriminator__def(d, m); mini__mark_discriminator_ok__def(d, m);
    if d is Branch {
        let off = d->offset.raw; let k = (n - 1) as nat;
        let sub = at_sub(m, off); let so = mini__mark_size(d->value_type.size, sub);
        mark_size(d->value_type.size, sub);
        mark_at(m, off, so, |b: int| run(0, d->value_type.size.raw, b));
        let p1 = shifted(|b: int| run(0, d->value_type.size.raw, b), off);
        let a = List__write_subslice_at_index::<bool>(m, off, so);
        let c = mini__mark_discriminator(*d->fallback, a);
        mark_disc(*d->fallback, a, k);
        let p2 = |b: int| disc_uses(*d->fallback, b, k);
        let p12 = |b: int| p1(b) || p2(b);
        mark_then(m.s, a.s, c.s, p1, p2, p12);
        let l = Map__values::<(int, int), Discriminator>(d->children);
        keys_of(d->children);
        mark_disc_loop(l, 0, c, k);
        let p3 = |b: int| exists|j: int| 0 <= j < l.s.len() && disc_uses(#[trigger] l.s[j], b, k);
        let r = |b: int| disc_uses(d, b, n);
        assert forall|b: int| #[trigger] r(b) == (p12(b) || p3(b)) by {
            if p3(b) { let j = choose|j: int| 0 <= j < l.s.len() && disc_uses(#[trigger] l.s[j], b, k); let key = Map__keys(d->children).s[j]; assert(d->children.m.contains_key(key)); }
            if exists|q: (int, int)| #[trigger] d->children.m.contains_key(q) && disc_uses(d->children.m[q], b, k) {
                let q = choose|q: (int, int)| #[trigger] d->children.m.contains_key(q) && disc_uses(d->children.m[q], b, k);
                let j = choose|j: int| 0 <= j < l.s.len() && #[trigger] Map__keys(d->children).s[j] == q;
                assert(disc_uses(l.s[j], b, k));
            }
        }
        mark_then(m.s, c.s, mini__mark_discriminator(d, m).s, p12, p3, r);
    }
}
pub proof fn mark_fields_loop(l: List<(Size, Type)>, i: int, m: List<bool>, n: nat)
    requires mini__mark_used_bytes__loop1_ok(l, i, m), 0 <= i <= l.s.len(), forall|j: int| i <= j < l.s.len() ==> deep((#[trigger] l.s[j]).1, n)
    ensures marked(m.s, mini__mark_used_bytes__loop1(l, i, m).s, |b: int| exists|j: int| i <= j < l.s.len() && (#[trigger] l.s[j]).0.raw <= b && uses(l.s[j].1, b - l.s[j].0.raw, n))
    decreases n, l.s.len() - i + 1
{
    mini__mark_used_bytes__loop1__def(l, i, m); mini__mark_used_bytes__loop1_ok__def(l, i, m);
    if i < l.s.len() {
        let off = l.s[i].0.raw; let t = l.s[i].1; let sub = at_sub(m, off);
        let so = mini__mark_used_bytes(t, sub);
        mark_type(t, sub, n);
        mark_at(m, off, so, |b: int| uses(t, b, n));
        let a = List__write_subslice_at_index::<bool>(m, off, so);
        mark_fields_loop(l, i + 1, a, n);
        mark_then(m.s, a.s, mini__mark_used_bytes__loop1(l, i, m).s, shifted(|b: int| uses(t, b, n), off),
            |b: int| exists|j: int| i + 1 <= j < l.s.len() && (#[trigger] l.s[j]).0.raw <= b && uses(l.s[j].1, b - l.s[j].0.raw, n),
            |b: int| exists|j: int| i <= j < l.s.len() && (#[trigger] l.s[j]).0.raw <= b && uses(l.s[j].1, b - l.s[j].0.raw, n));
    }
}
pub proof fn mark_chunks_loop(l: List<(Size, Size)>, i: int, m: List<bool>)
    requires mini__mark_used_bytes__loop2_ok(l, i, m), 0 <= i <= l.s.len()
    ensures marked(m.s, mini__mark_used_bytes__loop2(l, i, m).s, |b: int| exists|j: int| i <= j < l.s.len() && run((#[trigger] l.s[j]).0.raw, l.s[j].1.raw, b))
    decreases l.s.len() - i
{
    mini__mark_used_bytes__loop2__def(l, i, m); mini__mark_used_bytes__loop2_ok__def(l, i, m);
    if i < l.s.len() {
        let off = l.s[i].0.raw; let len = l.s[i].1; let sub = at_sub(m, off);
        let so = mini__mark_size(len, sub);
        mark_size(len, sub);
        mark_at(m, off, so, |b: int| run(0, len.raw, b));
        let a = List__write_subslice_at_index::<bool>(m, off, so);
        mark_chunks_loop(l, i + 1, a);
        mark_then(m.s, a.s, mini__mark_used_bytes__loop2(l, i, m).s, shifted(|b: int| run(0, len.raw, b), off),
            |b: int| exists|j: int| i + 1 <= j < l.s.len() && run((#[trigger] l.s[j]).0.raw, l.s[j].1.raw, b),
            |b: int| exists|j: int| i <= j < l.s.len() && run((#[trigger] l.s[j]).0.raw, l.s[j].1.raw, b));
    }
}
pub proof fn mark_elems_loop(end: int, i: int, e: Type, m: List<bool>, n: nat)
    requires mini__mark_used_bytes__loop3_ok(end, i, e, m), 0 <= i, deep(e, n)
    ensures marked(m.s, mini__mark_used_bytes__loop3(end, i, e, m).s, |b: int| exists|j: int| i <= j < end && #[trigger] elem_start(e, j) <= b && uses(e, b - elem_start(e, j), n))
    decreases n, (if i < end { end - i } else { 0 }) + 1
{
    mini__mark_used_bytes__loop3__def(end, i, e, m); mini__mark_used_bytes__loop3_ok__def(end, i, e, m);
    if i < end {
        let off = elem_start(e, i); let sub = at_sub(m, off);
        let so = mini__mark_used_bytes(e, sub);
        mark_type(e, sub, n);
        mark_at(m, off, so, |b: int| uses(e, b, n));
        let a = List__write_subslice_at_index::<bool>(m, off, so);
        mark_elems_loop(end, i + 1, e, a, n);
        mark_then(m.s, a.s, mini__mark_used_bytes__loop3(end, i, e, m).s, shifted(|b: int| uses(e, b, n), off),
            |b: int| exists|j: int| i + 1 <= j < end && #[trigger] elem_start(e, j) <= b && uses(e, b - elem_start(e, j), n), |b: int| exists|j: int| i <= j < end && #[trigger] elem_start(e, j) <= b && uses(e, b - elem_start(e, j), n));
    }
}
pub open spec fn tag_run(x: (Size, (IntType, int)), b: int) -> bool { run(x.0.raw, x.1.0.size.raw, b) }
pub proof fn mark_tags_loop(l: List<(Size, (IntType, int))>, i: int, m: List<bool>)
    requires mini__mark_used_bytes__loop5_ok(l, i, m), 0 <= i <= l.s.len()
    ensures marked(m.s, mini__mark_used_bytes__loop5(l, i, m).s, |b: int| exists|j: int| i <= j < l.s.len() && tag_run(#[trigger] l.s[j], b))
    decreases l.s.len() - i
{
    mini__mark_used_bytes__loop5__def(l, i, m); mini__mark_used_bytes__loop5_ok__def(l, i, m);
    if i < l.s.len() {
        let off = l.s[i].0.raw; let len = l.s[i].1.0.size; let sub = at_sub(m, off);
        let so = mini__mark_size(len, sub);
        mark_size(len, sub);
        mark_at(m, off, so, |b: int| run(0, len.raw, b));
        let a = List__write_subslice_at_index::<bool>(m, off, so);
        mark_tags_loop(l, i + 1, a);
        mark_then(m.s, a.s, mini__mark_used_bytes__loop5(l, i, m).s, shifted(|b: int| run(0, len.raw, b), off),
            |b: int| exists|j: int| i + 1 <= j < l.s.len() && tag_run(#[trigger] l.s[j], b), |b: int| exists|j: int| i <= j < l.s.len() && tag_run(#[trigger] l.s[j], b));
    }
}
pub open spec fn variant_uses(v: Variant, b: int, n: nat) -> bool { uses(v.ty, b, n) || tags(v.tagger, b) }
pub proof fn mark_variants_loop(l: List<Variant>, i: int, m: List<bool>, n: nat)
    requires mini__mark_used_bytes__loop4_ok(l, i, m), 0 <= i <= l.s.len(), forall|j: int| i <= j < l.s.len() ==> deep((#[trigger] l.s[j]).ty, n) && l.s[j].tagger.m.dom().finite()
    ensures marked(m.s, mini__mark_used_bytes__loop4(l, i, m).s, |b: int| exists|j: int| i <= j < l.s.len() && variant_uses(#[trigger] l.s[j], b, n))
    decreases n, l.s.len() - i + 1
{
    mini__mark_used_bytes__loop4__def(l, i, m); mini__mark_used_bytes__loop4_ok__def(l, i, m);
    if i < l.s.len() {
        let v = l.s[i];
        let a = mini__mark_used_bytes(v.ty, m);
        mark_type(v.ty, m, n);
        let tl = Map__iter(v.tagger);
        let c = mini__mark_used_bytes__loop5(tl, 0, a);
        mark_tags_loop(tl, 0, a);
        keys_of(v.tagger);
        let p = |b: int| uses(v.ty, b, n);
        let q = |b: int| exists|j: int| 0 <= j < tl.s.len() && tag_run(#[trigger] tl.s[j], b);
        let pq = |b: int| variant_uses(v, b, n);
        assert forall|b: int| #[trigger] pq(b) == (p(b) || q(b)) by {
            if q(b) { let j = choose|j: int| 0 <= j < tl.s.len() && tag_run(#[trigger] tl.s[j], b); let o = Map__keys(v.tagger).s[j]; assert(v.tagger.m.contains_key(o)); assert(tags(v.tagger, b)); }
            if tags(v.tagger, b) {
                let o = choose|o: Size| #[trigger] v.tagger.m.contains_key(o) && run(o.raw, v.tagger.m[o].0.size.raw, b);
                let j = choose|j: int| 0 <= j < tl.s.len() && #[trigger] Map__keys(v.tagger).s[j] == o;
                assert(tag_run(tl.s[j], b));
            }
        }
        mark_then(m.s, a.s, c.s, p, q, pq);
        mark_variants_loop(l, i + 1, c, n);
        mark_then(m.s, c.s, mini__mark_used_bytes__loop4(l, i, m).s, pq, |b: int| exists|j: int| i + 1 <= j < l.s.len() && variant_uses(#[trigger] l.s[j], b, n), |b: int| exists|j: int| i <= j < l.s.len() && variant_uses(#[trigger] l.s[j], b, n));
    }
}
/// marking a type marks exactly the bytes of it that can hold data
pub proof fn mark_type(t: Type, m: List<bool>, n: nat)
    requires mini__mark_used_bytes_ok(t, m), deep(t, n)
    ensures marked(m.s, mini__mark_used_bytes(t, m).s, |b: int| uses(t, b, n))
    decreases n, 0int
{
    mini__mark_used_bytes__def(t, m); mini__mark_used_bytes_ok__def(t, m);
    let out = mini__mark_used_bytes(t, m); let k = (n - 1) as nat;
    let u = |b: int| uses(t, b, n);
    match t {
        Type::Int(i) => { mark_size(i.size, m); assert(marked(m.s, out.s, u)); }
        Type::Bool => { mark_size(Size { raw: 1 }, m); assert(marked(m.s, out.s, u)); }
        Type::Ptr(_) => { mark_size(LayoutStrategy__expect_size(Type__layout(t), Str), m); assert(marked(m.s, out.s, u)); }
        Type::Tuple { sized_fields, .. } => { mark_fields_loop(sized_fields, 0, m, k); assert(marked(m.s, out.s, u)); }
        Type::Union { chunks, .. } => { mark_chunks_loop(chunks, 0, m); assert(marked(m.s, out.s, u)); }
        Type::Array { elem, count } => { mark_elems_loop(count, 0, *elem, m, k); assert(marked(m.s, out.s, u)); }
        Type::Enum { variants, discriminator, .. } => {
            let l = Map__values::<int, Variant>(variants);
            keys_of(variants);
            mark_variants_loop(l, 0, m, k);
            let a = mini__mark_used_bytes__loop4(l, 0, m);
            mark_enum_disc(discriminator, a, n);
            let p = |b: int| exists|j: int| 0 <= j < l.s.len() && variant_uses(#[trigger] l.s[j], b, k);
            let q = |b: int| disc_uses(discriminator, b, n);
            assert forall|b: int| #[trigger] u(b) == (p(b) || q(b)) by {
                if p(b) { let j = choose|j: int| 0 <= j < l.s.len() && variant_uses(#[trigger] l.s[j], b, k); let key = Map__keys(variants).s[j]; assert(variants.m.contains_key(key)); }
                if exists|x: int| #[trigger] variants.m.contains_key(x) && variant_uses(variants.m[x], b, k) {
                    let x = choose|x: int| #[trigger] variants.m.contains_key(x) && variant_uses(variants.m[x], b, k);
                    let j = choose|j: int| 0 <= j < l.s.len() && #[trigger] Map__keys(variants).s[j] == x;
                    assert(variant_uses(l.s[j], b, k));
                }
            }
            mark_then(m.s, a.s, out.s, p, q, u);
        }
        _ => { }
    }
}
pub proof fn mark_enum_disc(d: Discriminator, m: List<bool>, n: nat)
    requires mini__mark_discriminator_ok(d, m), disc_deep(d, n)
    ensures marked(m.s, mini__mark_discriminator(d, m).s, |b: int| disc_uses(d, b, n))
{ mark_disc(d, m, n); }
// from the marked bytes to the chunks
pub open spec fn covered(c: Seq<(Size, Size)>, b: int) -> bool { exists|i: int| 0 <= i < c.len() && run((#[trigger] c[i]).0.raw, c[i].1.raw, b) }
/// chunks in ascending order, none empty, a gap between any two
pub open spec fn separate(c: Seq<(Size, Size)>) -> bool {
    (forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).0.raw >= 0 && c[i].1.raw > 0)
    && forall|i: int, j: int| 0 <= i < j < c.len() ==> (#[trigger] c[i]).0.raw + c[i].1.raw < (#[trigger] c[j]).0.raw
}
pub open spec fn chunk_inv(mk: Seq<bool>, i: int, c: Seq<(Size, Size)>, cur: Option<int>) -> bool {
    let lim = if cur is Some { cur->0 } else { i };
    &&& separate(c) && 0 <= lim <= i
    &&& (forall|j: int| 0 <= j < c.len() ==> (#[trigger] c[j]).0.raw + c[j].1.raw < lim)
    &&& (forall|b: int| 0 <= b < lim ==> (#[trigger] mk[b] <==> covered(c, b)))
    &&& (cur is Some ==> lim < i && forall|b: int| lim <= b < i ==> #[trigger] mk[b])
}
pub proof fn chunks_loop(mk: List<bool>, i: int, c: List<(Size, Size)>, cur: Option<int>)
    requires mini__calc_chunks__loop2_ok(List__enumerate::<bool>(mk), i, c, cur), 0 <= i <= mk.s.len(), chunk_inv(mk.s, i, c.s, cur)
    ensures ({ let (d, u) = mini__calc_chunks__loop2(List__enumerate::<bool>(mk), i, c, cur); chunk_inv(mk.s, mk.s.len() as int, d.s, u) })
    decreases mk.s.len() - i
{
    let it = List__enumerate::<bool>(mk);
    reveal_with_fuel(mini__calc_chunks__loop2, 2); reveal_with_fuel(mini__calc_chunks__loop2_ok, 2);
    if i < mk.s.len() {
        if mk.s[i] {
            if cur is None { chunks_loop(mk, i + 1, c, Some(i)); } else { chunks_loop(mk, i + 1, c, cur); }
        } else if cur is Some {
            let x = (Size { raw: cur->0 }, Size { raw: i - cur->0 });
            let d = List { s: c.s.push(x) };
            assert forall|b: int| 0 <= b < i + 1 implies (#[trigger] mk.s[b] <==> covered(d.s, b)) by {
                if b < cur->0 {
                    if covered(c.s, b) { let j = choose|j: int| 0 <= j < c.s.len() && run((#[trigger] c.s[j]).0.raw, c.s[j].1.raw, b); assert(d.s[j] == c.s[j]); }
                    if covered(d.s, b) { let j = choose|j: int| 0 <= j < d.s.len() && run((#[trigger] d.s[j]).0.raw, d.s[j].1.raw, b); assert(j < c.s.len()); assert(d.s[j] == c.s[j]); }
                } else if b < i { assert(d.s[c.s.len() as int] == x); }
                else if covered(d.s, b) { let j = choose|j: int| 0 <= j < d.s.len() && run((#[trigger] d.s[j]).0.raw, d.s[j].1.raw, b); if j < c.s.len() { assert(d.s[j] == c.s[j]); } }
            }
            chunks_loop(mk, i + 1, d, None);
        } else {
            assert(!covered(c.s, i));
            chunks_loop(mk, i + 1, c, cur);
        }
    }
}
pub open spec fn union_uses(f: Seq<(Size, Type)>, b: int, n: nat) -> bool { exists|i: int| 0 <= i < f.len() && (#[trigger] f[i]).0.raw <= b && uses(f[i].1, b - f[i].0.raw, n) }
pub proof fn mark_union_loop(l: List<(Size, Type)>, i: int, m: List<bool>, n: nat)
    requires mini__calc_chunks__loop1_ok(l, i, m), 0 <= i <= l.s.len(), forall|j: int| i <= j < l.s.len() ==> deep((#[trigger] l.s[j]).1, n)
    ensures marked(m.s, mini__calc_chunks__loop1(l, i, m).s, |b: int| exists|j: int| i <= j < l.s.len() && (#[trigger] l.s[j]).0.raw <= b && uses(l.s[j].1, b - l.s[j].0.raw, n))
    decreases l.s.len() - i
{
    reveal_with_fuel(mini__calc_chunks__loop1, 2); reveal_with_fuel(mini__calc_chunks__loop1_ok, 2);
    if i < l.s.len() {
        let off = l.s[i].0.raw; let t = l.s[i].1; let sub = at_sub(m, off);
        let so = mini__mark_used_bytes(t, sub);
        mark_type(t, sub, n);
        mark_at(m, off, so, |b: int| uses(t, b, n));
        let a = List__write_subslice_at_index::<bool>(m, off, so);
        mark_union_loop(l, i + 1, a, n);
        mark_then(m.s, a.s, mini__calc_chunks__loop1(l, i, m).s, shifted(|b: int| uses(t, b, n), off),
            |b: int| exists|j: int| i + 1 <= j < l.s.len() && (#[trigger] l.s[j]).0.raw <= b && uses(l.s[j].1, b - l.s[j].0.raw, n),
            |b: int| exists|j: int| i <= j < l.s.len() && (#[trigger] l.s[j]).0.raw <= b && uses(l.s[j].1, b - l.s[j].0.raw, n));
    }
}
/// the chunks of a union: exactly the bytes some field can hold data in, as separate ascending runs inside the union
pub proof fn mir_chunks(f: List<(Size, Type)>, size: Size, n: nat)
    requires mini__calc_chunks_ok(f, size), forall|j: int| 0 <= j < f.s.len() ==> deep((#[trigger] f.s[j]).1, n), size.raw >= 0
    ensures ({
        let c = mini__calc_chunks(f, size).s;
        &&& separate(c) && chunks_apart(c, size.raw)
        &&& forall|b: int| 0 <= b < size.raw ==> (#[trigger] covered(c, b) <==> union_uses(f.s, b, n))
    })
{
    reveal(mini__calc_chunks); reveal(mini__calc_chunks_ok);
    let z = List__from_elem::<bool>(false, size.raw);
    let m = mini__calc_chunks__loop1(f, 0, z);
    mark_union_loop(f, 0, z, n);
    let mk = List__push::<bool>(m, false);
    chunks_loop(mk, 0, List__new::<(Size, Size)>(), None);
    let (c, u) = mini__calc_chunks__loop2(List__enumerate::<bool>(mk), 0, List__new::<(Size, Size)>(), None);
    assert(!mk.s[size.raw]);
    assert(u is None);
    assert forall|b: int| 0 <= b < size.raw implies (#[trigger] covered(c.s, b) <==> union_uses(f.s, b, n)) by { assert(mk.s[b] == m.s[b]); }
    assert forall|i: int| 0 <= i < c.s.len() implies (#[trigger] c.s[i]).0.raw + c.s[i].1.raw <= size.raw by {
        assert(c.s[i].0.raw + c.s[i].1.raw < size.raw + 1);
    }
}
