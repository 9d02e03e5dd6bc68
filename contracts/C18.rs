// C18: tags. Writing a variant's tag and reading the discriminant gives the variant back; a tag of no variant is undefined behaviour.

pub type Child = ((int, int), Discriminator);
/// key k of a branch is for tag v
pub open spec fn covers(k: (int, int), v: int) -> bool { k.0 <= v < k.1 }
/// the tags of different children are different
pub open spec fn disjoint(c: Map<(int, int), Discriminator>) -> bool {
    c.m.dom().finite() && forall|a: (int, int), b: (int, int), v: int| #[trigger] covers(a, v) && #[trigger] covers(b, v) && c.m.contains_key(a) && c.m.contains_key(b) ==> a == b
}
pub proof fn find_is<A>(s: Seq<A>, i: int, f: spec_fn(A) -> bool)
    requires 0 <= i
    ensures ({ let k = find_from(s, i, f); (k >= 0 ==> i <= k < s.len() && f(s[k])) && (k < 0 ==> forall|j: int| i <= j < s.len() ==> !f(#[trigger] s[j])) })
    decreases s.len() - i
{ if i < s.len() { find_is(s, i + 1, f); } }
/// which child a tag selects
pub proof fn select(c: Map<(int, int), Discriminator>, v: int, f: spec_fn(Child) -> Option<Discriminator>)
    requires c.m.dom().finite(), forall|x: Child| #[trigger] f(x) == (if covers(x.0, v) { Some(x.1) } else { None::<Discriminator> })
    ensures ({
        let r = List__find_map(Map__iter::<(int, int), Discriminator>(c), f);
        &&& (r is Some ==> exists|k: (int, int)| c.m.contains_key(k) && #[trigger] covers(k, v) && r == Some(c.m[k]))
        &&& (r is None ==> forall|k: (int, int)| c.m.contains_key(k) ==> !#[trigger] covers(k, v))
    })
{
    let l = Map__iter::<(int, int), Discriminator>(c);
    let ks = Map__keys(c);
    let g = |a: Child| f(a) is Some;
    find_is(l.s, 0, g);
    let k = find_from(l.s, 0, g);
    if k >= 0 {
        assert(l.s[k] == (ks.s[k], c.m[ks.s[k]]));
        assert(ks.s.contains(ks.s[k]));
        assert(covers(ks.s[k], v));
    } else {
        assert forall|q: (int, int)| c.m.contains_key(q) implies !#[trigger] covers(q, v) by {
            assert(ks.s.contains(q));
            let j = choose|j: int| 0 <= j < ks.s.len() && ks.s[j] == q;
            assert(l.s[j] == (q, c.m[q]));
            assert(!g(l.s[j]));
        }
    }
}
/// where tag v leads to from a branch
pub open spec fn leads(c: Map<(int, int), Discriminator>, fb: Discriminator, v: int, d: Discriminator) -> bool {
    (exists|k: (int, int)| c.m.contains_key(k) && #[trigger] covers(k, v) && d == c.m[k]) || ((forall|k: (int, int)| c.m.contains_key(k) ==> !#[trigger] covers(k, v)) && d == fb)
}
pub type Acc<S> = spec_fn(S, Size, Size) -> (S, Result<List<AbstractByte<Prov>>, TerminationInfo>);
/// reading a branch reads the tag's bytes at its place and continues as the tag says; uninitialised bytes give no discriminant
pub proof fn branch<S>(s: S, f: Acc<S>, off: Size, t: IntType, fb: Discriminator, c: Map<(int, int), Discriminator>, d: Discriminator)
    requires disjoint(c)
    ensures ({
        let (s1, b) = f(s, off, t.size);
        let r = decode_discriminant::<S>(s, f, Discriminator::Branch { offset: off, value_type: t, fallback: Box::new(fb), children: c });
        match b {
            Err(e) => r == (s1, Err::<Option<int>, TerminationInfo>(e)),
            Ok(bytes) => match Type__decode(Type::Int(t), bytes) {
                Some(Value::Int(v)) => leads(c, fb, v, d) ==> r == decode_discriminant::<S>(s1, f, d),
                _ => r == (s1, Ok::<Option<int>, TerminationInfo>(None)),
            },
        }
    })
{
    let (s1, b) = f(s, off, t.size);
    decode_discriminant__def(s, f, Discriminator::Branch { offset: off, value_type: t, fallback: Box::new(fb), children: c });
    match b {
        Ok(bytes) => match Type__decode(Type::Int(t), bytes) {
            Some(Value::Int(v)) => {
                let g = |x: ((int, int), Discriminator)| { let ((start, end), child) = x; if ((start <= v) && (v < end)) { Some(child) } else { None } };
                select(c, v, g);
                let r = List__find_map(Map__iter::<(int, int), Discriminator>(c), g);
                if leads(c, fb, v, d) {
                    if r is Some {
                        let k = choose|k: (int, int)| c.m.contains_key(k) && #[trigger] covers(k, v) && r == Some(c.m[k]);
                        if exists|k: (int, int)| c.m.contains_key(k) && #[trigger] covers(k, v) && d == c.m[k] {
                            let q = choose|q: (int, int)| c.m.contains_key(q) && #[trigger] covers(q, v) && d == c.m[q];
                            assert(k == q);
                        }
                    }
                    assert(Option__unwrap_or::<Discriminator>(r, fb) == d);
                }
            }
            _ => { }
        },
        _ => { }
    }
}
/// the two ends of a decision: a known variant, and none
pub proof fn leaves<S>(s: S, f: Acc<S>, d: int)
    ensures
        decode_discriminant::<S>(s, f, Discriminator::Known(d)) == (s, Ok::<Option<int>, TerminationInfo>(Some(d))),
        decode_discriminant::<S>(s, f, Discriminator::Invalid) == (s, Ok::<Option<int>, TerminationInfo>(None)),
{
    decode_discriminant__def(s, f, Discriminator::Known(d));
    decode_discriminant__def(s, f, Discriminator::Invalid);
}

// ---------------------------------------------------------------- writing the tag
pub type Put<S> = spec_fn(S, Size, List<AbstractByte<Prov>>) -> (S, Result<(), TerminationInfo>);
/// nothing to write: nothing is written
pub proof fn no_tag<S>(s: S, f: Put<S>)
    ensures encode_discriminant::<S>(s, f, Map { m: vstd::map::Map::empty() }) == (s, Ok::<(), TerminationInfo>(())),
{
    let t = Map { m: vstd::map::Map::<Size, (IntType, int)>::empty() };
    encode_discriminant__def(s, f, t);
    encode_discriminant__loop1__def(Map__iter::<Size, (IntType, int)>(t), 0, f, s);
}
pub open spec fn one_tag(off: Size, t: IntType, v: int) -> Map<Size, (IntType, int)> { Map { m: vstd::map::Map::<Size, (IntType, int)>::empty().insert(off, (t, v)) } }
/// one tag: exactly the bytes of its integer at its place
pub proof fn single_tag<S>(s: S, f: Put<S>, off: Size, t: IntType, v: int)
    ensures ({
        let r = encode_discriminant::<S>(s, f, one_tag(off, t, v));
        let (s1, e) = f(s, off, Type__encode(Type::Int(t), Value::Int(v)));
        r.0 == s1 && match e { Ok(_) => r.1 is Ok, Err(x) => r.1 is Err && r.1->Err_0 == x }
    })
{
    let m = one_tag(off, t, v);
    encode_discriminant__def(s, f, m);
    let l = Map__iter::<Size, (IntType, int)>(m); let ks = Map__keys(m);
    assert(m.m.dom() =~= vstd::set::Set::empty().insert(off));
    assert(m.m.dom().len() == 1);
    assert(ks.s.len() == 1);
    assert(ks.s.contains(ks.s[0]));
    assert(l.s[0] == (off, (t, v)));
    encode_discriminant__loop1__def(l, 0, f, s);
    encode_discriminant__loop1__def(l, 1, f, f(s, off, Type__encode(Type::Int(t), Value::Int(v))).0);
}

// ---------------------------------------------------------------- values in memory
pub open spec fn write_tag(b: List<AbstractByte<Prov>>, tagger: Map<Size, (IntType, int)>) -> List<AbstractByte<Prov>> {
    encode_discriminant::<List<AbstractByte<Prov>>>(b, |bytes_5: List<AbstractByte<Prov>>, offset_3: Size, value_bytes: List<AbstractByte<Prov>>| { let bytes_5 = List__write_subslice_at_index::<AbstractByte<Prov>>(bytes_5, Size__bytes(offset_3), value_bytes);
(bytes_5, Ok(())) }, tagger).0
}
pub open spec fn read_tag(b: List<AbstractByte<Prov>>, d: Discriminator) -> Option<int> {
    Result__unwrap::<Option<int>, TerminationInfo>(decode_discriminant::<()>((), |nost: (), offset_3: Size, size_6: Size| { (nost, Ok(List__subslice_with_length::<AbstractByte<Prov>>(b, Size__bytes(offset_3), Size__bytes(size_6)))) }, d).1)
}
pub open spec fn sliced(b: List<AbstractByte<Prov>>, at: int, n: int) -> List<AbstractByte<Prov>> { List { s: b.s.subrange(at, at + n) } }
/// bytes b hold tag v of type t at off
pub open spec fn tag_is(b: List<AbstractByte<Prov>>, off: Size, t: IntType, v: int) -> bool { Type__decode(Type::Int(t), sliced(b, off.raw, t.size.raw)) == Some(Value::Int(v)) }
pub open spec fn branch_on(off: Size, t: IntType, fb: Discriminator, c: Map<(int, int), Discriminator>) -> Discriminator { Discriminator::Branch { offset: off, value_type: t, fallback: Box::new(fb), children: c } }
/// what is read is the variant the tag in memory selects, however the tag came there: written as a tag or as part of the data (niche)
pub proof fn reads_variant(b: List<AbstractByte<Prov>>, off: Size, t: IntType, fb: Discriminator, c: Map<(int, int), Discriminator>, v: int, d: int)
    requires disjoint(c), tag_is(b, off, t, v), leads(c, fb, v, Discriminator::Known(d))
    ensures read_tag(b, branch_on(off, t, fb, c)) == Some(d)
{
    let f = |nost: (), offset_3: Size, size_6: Size| { (nost, Ok(List__subslice_with_length::<AbstractByte<Prov>>(b, Size__bytes(offset_3), Size__bytes(size_6)))) };
    branch((), f, off, t, fb, c, Discriminator::Known(d));
    leaves((), f, d);
}
/// a tag that leads to no variant, or is uninitialised, gives none
pub proof fn reads_none(b: List<AbstractByte<Prov>>, off: Size, t: IntType, fb: Discriminator, c: Map<(int, int), Discriminator>, v: int)
    requires disjoint(c), (tag_is(b, off, t, v) && leads(c, fb, v, Discriminator::Invalid)) || Type__decode(Type::Int(t), sliced(b, off.raw, t.size.raw)) is None
    ensures read_tag(b, branch_on(off, t, fb, c)) is None
{
    let f = |nost: (), offset_3: Size, size_6: Size| { (nost, Ok(List__subslice_with_length::<AbstractByte<Prov>>(b, Size__bytes(offset_3), Size__bytes(size_6)))) };
    branch((), f, off, t, fb, c, Discriminator::Invalid);
    leaves((), f, 0);
}
/// single-variant layouts read no memory
pub proof fn reads_single(b: List<AbstractByte<Prov>>, d: int)
    ensures read_tag(b, Discriminator::Known(d)) == Some(d), read_tag(b, Discriminator::Invalid) is None,
{
    let f = |nost: (), offset_3: Size, size_6: Size| { (nost, Ok(List__subslice_with_length::<AbstractByte<Prov>>(b, Size__bytes(offset_3), Size__bytes(size_6)))) };
    leaves((), f, d);
}
/// writing the tag changes exactly the tag's bytes
pub proof fn writes_tag(b: List<AbstractByte<Prov>>, off: Size, t: IntType, v: int)
    requires 0 <= off.raw, 0 <= t.size.raw, off.raw + t.size.raw <= b.s.len(), Type__encode(Type::Int(t), Value::Int(v)).s.len() == t.size.raw
    ensures ({
        let r = write_tag(b, one_tag(off, t, v));
        &&& r.s.len() == b.s.len()
        &&& sliced(r, off.raw, t.size.raw) == Type__encode(Type::Int(t), Value::Int(v))
        &&& forall|x: int| 0 <= x < b.s.len() && !(off.raw <= x < off.raw + t.size.raw) ==> #[trigger] r.s[x] == b.s[x]
    }), write_tag(b, Map { m: vstd::map::Map::empty() }) == b,
{
    let f = |bytes_5: List<AbstractByte<Prov>>, offset_3: Size, value_bytes: List<AbstractByte<Prov>>| { let bytes_5 = List__write_subslice_at_index::<AbstractByte<Prov>>(bytes_5, Size__bytes(offset_3), value_bytes);
(bytes_5, Ok(())) };
    single_tag(b, f, off, t, v);
    no_tag(b, f);
    let r = write_tag(b, one_tag(off, t, v));
    assert(sliced(r, off.raw, t.size.raw).s =~= Type__encode(Type::Int(t), Value::Int(v)).s);
}
/// a tagged variant is recognised again
pub proof fn tag_round_trip(b: List<AbstractByte<Prov>>, off: Size, t: IntType, v: int, fb: Discriminator, c: Map<(int, int), Discriminator>, d: int)
    requires 0 <= off.raw, 0 <= t.size.raw, off.raw + t.size.raw <= b.s.len(), disjoint(c), leads(c, fb, v, Discriminator::Known(d)),
        Type__encode(Type::Int(t), Value::Int(v)).s.len() == t.size.raw, Type__decode(Type::Int(t), Type__encode(Type::Int(t), Value::Int(v))) == Some(Value::Int(v)), // C04: integers survive
    ensures read_tag(write_tag(b, one_tag(off, t, v)), branch_on(off, t, fb, c)) == Some(d)
{
    writes_tag(b, off, t, v);
    reads_variant(write_tag(b, one_tag(off, t, v)), off, t, fb, c, v, d);
}

// ---------------------------------------------------------------- the machine
pub open spec fn tag_read(p: ThinPointer<Prov>) -> Acc<Machine> {
    |m: Machine, idx: Size, size_2: Size| { match Machine__ptr_offset_inbounds(m, p, Size__bytes(idx)) { Err(e) => (m, Err::<List<AbstractByte<Prov>>, TerminationInfo>(e)), Ok(q) => {
        let (n, r) = ConcurrentMemory__load(m.mem, q, size_2, Align__ONE(), Atomicity::None);
        (Machine { mem: n, ..m }, r) } } }
}
pub open spec fn tag_write(p: ThinPointer<Prov>) -> Put<Machine> {
    |m: Machine, offset: Size, bytes: List<AbstractByte<Prov>>| { match Machine__ptr_offset_inbounds(m, p, Size__bytes(offset)) { Err(e) => (m, Err::<(), TerminationInfo>(e)), Ok(q) => {
        let (n, r) = ConcurrentMemory__store(m.mem, q, bytes, Align__ONE(), Atomicity::None);
        (Machine { mem: n, ..m }, r) } } }
}
/// the discriminant of a place is read through the enum's discriminator, from memory inside the place; none is undefined behaviour, as is a misaligned place
pub proof fn get_discriminant(m: Machine, e: PlaceExpr)
    ensures ({
        let (m1, p) = Machine__eval_place(m, e);
        let (n, r) = Machine__eval_value(m, ValueExpr::GetDiscriminant { place: Box::new(e) });
        match p {
            Err(x) => n == m1 && r is Err && r->Err_0 == x,
            Ok((pl, Type::Enum { variants: vr, discriminant_ty: dt, discriminator: dr, size: sz, align: al })) => {
                if !pl.aligned { is_ub(r) && n == m1 } else {
                    let (m2, d) = decode_discriminant::<Machine>(m1, tag_read(pl.ptr.thin_pointer), dr);
                    n == m2 && match d { Err(x) => r is Err && r->Err_0 == x, Ok(Some(k)) => r == Ok::<(Value, Type), TerminationInfo>((Value::Int(k), Type::Int(dt))), Ok(None) => is_ub(r) }
                }
            }
            _ => true,
        }
    })
{
    Machine__eval_value__def(m, ValueExpr::GetDiscriminant { place: Box::new(e) });
    let (m1, p) = Machine__eval_place(m, e);
    match p {
        Ok((pl, _)) => {
            let f = |this_2: Machine, idx: Size, size_2: Size| { match Machine__ptr_offset_inbounds(this_2, pl.ptr.thin_pointer, Size__bytes(idx)) { Err(err) => { (this_2, Err(err)) } Ok(q23) => { let ptr = q23;
let (p24, r25) = ConcurrentMemory__load(this_2.mem, ptr, size_2, Align__ONE(), Atomicity::None);
let this_2 = Machine { mem: p24, ..this_2 };
(this_2, r25) } } };
            assert(f =~= tag_read(pl.ptr.thin_pointer));
        }
        _ => { }
    }
}
/// setting the discriminant writes the tag of exactly the named variant into the place
pub proof fn set_discriminant(m: Machine, e: PlaceExpr, v: int)
    ensures ({
        let (m1, p) = Machine__eval_place(m, e);
        let (n, r) = Machine__eval_statement(m, Statement::SetDiscriminant { destination: e, value: v });
        match p {
            Err(x) => n == m1 && r is Err && r->Err_0 == x,
            Ok((pl, Type::Enum { variants: vr, discriminant_ty: dt, discriminator: dr, size: sz, align: al })) => {
                if !pl.aligned { is_ub(r) && n == m1 } else if vr.m.contains_key(v) {
                    let (m2, d) = encode_discriminant::<Machine>(m1, tag_write(pl.ptr.thin_pointer), vr.m[v].tagger);
                    n == m2 && match d { Err(x) => r is Err && r->Err_0 == x, Ok(_) => r is Ok }
                } else { true }
            }
            _ => true,
        }
    })
{
    let (m1, p) = Machine__eval_place(m, e);
    match p {
        Ok((pl, _)) => {
            let f = |this_2: Machine, offset: Size, bytes: List<AbstractByte<Prov>>| { match Machine__ptr_offset_inbounds(this_2, pl.ptr.thin_pointer, Size__bytes(offset)) { Err(err) => { (this_2, Err(err)) } Ok(q17) => { let ptr = q17;
let (p18, r19) = ConcurrentMemory__store(this_2.mem, ptr, bytes, Align__ONE(), Atomicity::None);
let this_2 = Machine { mem: p18, ..this_2 };
(this_2, r19) } } };
            assert(f =~= tag_write(pl.ptr.thin_pointer));
        }
        _ => { }
    }
}
/// setting a discriminant sets the discriminant of that variant in that place
pub proof fn mir_set_discriminant(f: FnCtxt, s: RsStatement)
    requires FnCtxt__translate_stmt_ok(f, s), s.kind is SetDiscriminant
    ensures ({
        let r = FnCtxt__translate_stmt(f, s).1;
        let p = s.kind->SetDiscriminant_place;
        &&& r is Statement && r->Statement_0 is SetDiscriminant && tr_rplace(f, p, r->Statement_0->SetDiscriminant_destination)
        &&& exists|sp: RsSpan| r->Statement_0->SetDiscriminant_value == (#[trigger] Ctxt__discriminant_for_variant(f.cx, RsPlace__ty_from(p.local, p.projection, f.body, f.cx.tcx).ty, s.kind->SetDiscriminant_variant_index, sp)).1
    })
{
    reveal(FnCtxt__translate_stmt); reveal(FnCtxt__translate_stmt_ok);
}

// ---------------------------------------------------------------- the MIR translation of enum types
/// the discriminant the compiler gives a variant
pub open spec fn discr(a: RsAdtDef, tcx: RsTyCtxt, i: int, t: IntType) -> int { mini__int_from_bits(RsAdtDef__discriminant_for_variant(a, tcx, i).val, t) }
/// the payload of a variant: its fields, in the size and alignment of the whole enum
pub open spec fn payload(tcx: RsTyCtxt, shape: Option<RsFieldsShape>, d: RsVariantDef, r: RsGenericArgsRef, sp: RsSpan, size: Size, align: Align, t: Type) -> bool {
    exists|st: Ctxt| st.tcx == tcx && t == build__tuple_ty(List__iter::<(Size, Type)>((#[trigger] Ctxt__translate_adt_variant_fields(st, shape, d, r, sp)).1), size, align)
}
pub open spec fn told_apart(a: RsAdtDef, tcx: RsTyCtxt, n: int, t: IntType) -> bool { forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] discr(a, tcx, i, t) != #[trigger] discr(a, tcx, j, t) }
/// a variant of an enum of which the compiler tells only one apart: nothing is written for it
pub open spec fn alone(a: RsAdtDef, tcx: RsTyCtxt, vs: Seq<RsVariantDef>, r: RsGenericArgsRef, sp: RsSpan, l: RsLayout, size: Size, align: Align, t: IntType, one: int, out: Map<int, Variant>, i: int) -> bool {
    let d = discr(a, tcx, i, t);
    out.m.contains_key(d) && out.m[d].tagger.m == vstd::map::Map::<Size, (IntType, int)>::empty()
        && payload(tcx, if i == one { Some(RsLayout__fields(l)) } else { None }, vs[i], r, sp, size, align, out.m[d].ty)
}
pub proof fn mir_single(vs: List<RsVariantDef>, i: int, a: RsAdtDef, r: RsGenericArgsRef, sp: RsSpan, l: RsLayout, size: Size, align: Align, t: IntType, one: int, c: Ctxt, acc: Map<int, Variant>)
    requires Ctxt__translate_enum__loop2_ok(List__iter_enumerated::<RsVariantDef>(vs), i, a, r, sp, l, size, align, t, one, c, acc), 0 <= i <= vs.s.len(), told_apart(a, c.tcx, vs.s.len() as int, t),
        forall|j: int| 0 <= j < i ==> #[trigger] alone(a, c.tcx, vs.s, r, sp, l, size, align, t, one, acc, j)
    ensures ({
        let (g, out) = Ctxt__translate_enum__loop2(List__iter_enumerated::<RsVariantDef>(vs), i, a, r, sp, l, size, align, t, one, c, acc);
        g.tcx == c.tcx && forall|j: int| 0 <= j < vs.s.len() ==> #[trigger] alone(a, c.tcx, vs.s, r, sp, l, size, align, t, one, out, j)
    })
    decreases vs.s.len() - i
{
    let it = List__iter_enumerated::<RsVariantDef>(vs);
    Ctxt__translate_enum__loop2__def(it, i, a, r, sp, l, size, align, t, one, c, acc); Ctxt__translate_enum__loop2_ok__def(it, i, a, r, sp, l, size, align, t, one, c, acc);
    if i < vs.s.len() {
        assert(it.s[i] == (i, vs.s[i]));
        let shape = if i == one { Some(RsLayout__fields(l)) } else { None };
        let x = Ctxt__translate_adt_variant_fields(c, shape, vs.s[i], r, sp);
        let v = Variant { ty: build__tuple_ty(List__iter::<(Size, Type)>(x.1), size, align), tagger: Map__new::<Size, (IntType, int)>() };
        let acc2 = Map__insert::<int, Variant>(acc, discr(a, c.tcx, i, t), v).0;
        assert forall|j: int| 0 <= j < i + 1 implies #[trigger] alone(a, c.tcx, vs.s, r, sp, l, size, align, t, one, acc2, j) by {
            if j < i { assert(alone(a, c.tcx, vs.s, r, sp, l, size, align, t, one, acc, j)); assert(discr(a, c.tcx, j, t) != discr(a, c.tcx, i, t)); }
        }
        mir_single(vs, i + 1, a, r, sp, l, size, align, t, one, x.0, acc2);
    }
}
/// how a variant of an enum with a tag is translated when the tag is its discriminant: the tag is written at its place, and reading it tells the variant
pub open spec fn tagged_direct(a: RsAdtDef, tcx: RsTyCtxt, vs: Seq<RsVariantDef>, r: RsGenericArgsRef, sp: RsSpan, ls: Seq<RsVariantLayout>, size: Size, align: Align, t: IntType, off: Size, tag: IntType, out: Map<int, Variant>, br: Map<(int, int), Discriminator>, i: int) -> bool {
    let d = discr(a, tcx, i, t);
    &&& out.m.contains_key(d) && out.m[d].tagger.m == vstd::map::Map::<Size, (IntType, int)>::empty().insert(off, (tag, d))
    &&& payload(tcx, Some(ls[i].fields), vs[i], r, sp, size, align, out.m[d].ty)
    &&& br.m.contains_key((d, d + 1)) && br.m[(d, d + 1)] == Discriminator::Known(d)
}
pub open spec fn of_variant(a: RsAdtDef, tcx: RsTyCtxt, n: int, t: IntType, k: (int, int)) -> bool { exists|i: int| 0 <= i < n && k == (#[trigger] discr(a, tcx, i, t), discr(a, tcx, i, t) + 1) }
pub proof fn one_entry(off: Size, x: (IntType, int))
    ensures Map__from_list::<Size, (IntType, int)>(List__into_iter::<(Size, (IntType, int))>(List__push::<(Size, (IntType, int))>(List__new::<(Size, (IntType, int))>(), (off, x)))).m == vstd::map::Map::<Size, (IntType, int)>::empty().insert(off, x)
{
    let l = List__push::<(Size, (IntType, int))>(List__new::<(Size, (IntType, int))>(), (off, x)).s;
    assert(l =~= seq![(off, x)]);
    reveal_with_fuel(map_from, 3);
    assert(l.drop_last() =~= Seq::<(Size, (IntType, int))>::empty());
    assert(map_from(l) =~= vstd::map::Map::<Size, (IntType, int)>::empty().insert(off, x));
}
pub proof fn mir_direct(vs: List<RsVariantDef>, i: int, a: RsAdtDef, r: RsGenericArgsRef, sp: RsSpan, size: Size, align: Align, t: IntType, ls: List<RsVariantLayout>, off: Size, tag: IntType, c: Ctxt, acc: Map<int, Variant>, br: Map<(int, int), Discriminator>)
    requires Ctxt__translate_enum__loop3_ok(List__iter_enumerated::<RsVariantDef>(vs), i, a, r, sp, size, align, t, RsTagEncoding::Direct, ls, off, tag, c, acc, br), 0 <= i <= vs.s.len(), told_apart(a, c.tcx, vs.s.len() as int, t),
        forall|j: int| 0 <= j < i ==> #[trigger] tagged_direct(a, c.tcx, vs.s, r, sp, ls.s, size, align, t, off, tag, acc, br, j),
        forall|k: (int, int)| #[trigger] br.m.contains_key(k) ==> of_variant(a, c.tcx, vs.s.len() as int, t, k),
    ensures ({
        let (g, out, br2) = Ctxt__translate_enum__loop3(List__iter_enumerated::<RsVariantDef>(vs), i, a, r, sp, size, align, t, RsTagEncoding::Direct, ls, off, tag, c, acc, br);
        &&& g.tcx == c.tcx
        &&& forall|j: int| 0 <= j < vs.s.len() ==> #[trigger] tagged_direct(a, c.tcx, vs.s, r, sp, ls.s, size, align, t, off, tag, out, br2, j)
        &&& forall|k: (int, int)| #[trigger] br2.m.contains_key(k) ==> of_variant(a, c.tcx, vs.s.len() as int, t, k)
    })
    decreases vs.s.len() - i
{
    let it = List__iter_enumerated::<RsVariantDef>(vs);
    let e = RsTagEncoding::Direct;
    Ctxt__translate_enum__loop3__def(it, i, a, r, sp, size, align, t, e, ls, off, tag, c, acc, br); Ctxt__translate_enum__loop3_ok__def(it, i, a, r, sp, size, align, t, e, ls, off, tag, c, acc, br);
    if i < vs.s.len() {
        assert(it.s[i] == (i, vs.s[i]));
        let d = discr(a, c.tcx, i, t);
        let x = Ctxt__translate_adt_variant_fields(c, Some(ls.s[i].fields), vs.s[i], r, sp);
        one_entry(off, (tag, d));
        let v = Variant { ty: build__tuple_ty(List__iter::<(Size, Type)>(x.1), size, align), tagger: Map__from_list::<Size, (IntType, int)>(List__into_iter::<(Size, (IntType, int))>(List__push::<(Size, (IntType, int))>(List__new::<(Size, (IntType, int))>(), (off, (tag, d))))) };
        let acc2 = Map__insert::<int, Variant>(acc, d, v).0;
        let br2 = Map__insert::<(int, int), Discriminator>(br, (d, d + 1), Discriminator::Known(d)).0;
        assert forall|j: int| 0 <= j < i + 1 implies #[trigger] tagged_direct(a, c.tcx, vs.s, r, sp, ls.s, size, align, t, off, tag, acc2, br2, j) by {
            if j < i { assert(tagged_direct(a, c.tcx, vs.s, r, sp, ls.s, size, align, t, off, tag, acc, br, j)); assert(discr(a, c.tcx, j, t) != d); }
        }
        assert forall|k: (int, int)| #[trigger] br2.m.contains_key(k) implies of_variant(a, c.tcx, vs.s.len() as int, t, k) by { if k != (d, d + 1) { assert(br.m.contains_key(k)); } }
        mir_direct(vs, i + 1, a, r, sp, size, align, t, ls, off, tag, x.0, acc2, br2);
    }
}
/// how a variant is translated when the tag lives in a niche: every variant but the untagged one is written there as its own value, and reading that value tells it; the untagged variant writes nothing, and its own value in the niche is not a tag
pub open spec fn niche_value(a: RsAdtDef, tcx: RsTyCtxt, t: IntType, tag: IntType, range: RsVariantRange, first: int, i: int) -> int {
    int__bring_in_bounds(discr(a, tcx, i, t) - RsVariantRange__start(range) + first, tag.signed, tag.size)
}
pub open spec fn tagged_niche(a: RsAdtDef, tcx: RsTyCtxt, vs: Seq<RsVariantDef>, r: RsGenericArgsRef, sp: RsSpan, ls: Seq<RsVariantLayout>, size: Size, align: Align, t: IntType, off: Size, tag: IntType, un: int, range: RsVariantRange, first: int, out: Map<int, Variant>, br: Map<(int, int), Discriminator>, i: int) -> bool {
    let d = discr(a, tcx, i, t);
    let v = niche_value(a, tcx, t, tag, range, first, i);
    &&& out.m.contains_key(d) && payload(tcx, Some(ls[i].fields), vs[i], r, sp, size, align, out.m[d].ty)
    &&& i != un ==> out.m[d].tagger.m == vstd::map::Map::<Size, (IntType, int)>::empty().insert(off, (tag, v)) && br.m.contains_key((v, v + 1)) && br.m[(v, v + 1)] == Discriminator::Known(d)
    &&& i == un ==> out.m[d].tagger.m == vstd::map::Map::<Size, (IntType, int)>::empty()
    &&& i == un && RsVariantRange__contains(range, i) ==> br.m.contains_key((v, v + 1)) && br.m[(v, v + 1)] is Invalid
}
pub open spec fn marked(un: int, range: RsVariantRange, i: int) -> bool { i != un || RsVariantRange__contains(range, i) }
pub open spec fn of_niche(a: RsAdtDef, tcx: RsTyCtxt, n: int, t: IntType, tag: IntType, un: int, range: RsVariantRange, first: int, k: (int, int)) -> bool {
    exists|i: int| 0 <= i < n && marked(un, range, i) && k == (#[trigger] niche_value(a, tcx, t, tag, range, first, i), niche_value(a, tcx, t, tag, range, first, i) + 1)
}
pub open spec fn told_apart_niche(a: RsAdtDef, tcx: RsTyCtxt, n: int, t: IntType, tag: IntType, range: RsVariantRange, first: int) -> bool {
    forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] niche_value(a, tcx, t, tag, range, first, i) != #[trigger] niche_value(a, tcx, t, tag, range, first, j)
}
pub proof fn mir_niche(vs: List<RsVariantDef>, i: int, a: RsAdtDef, r: RsGenericArgsRef, sp: RsSpan, size: Size, align: Align, t: IntType, un: int, range: RsVariantRange, first: int, ls: List<RsVariantLayout>, off: Size, tag: IntType, c: Ctxt, acc: Map<int, Variant>, br: Map<(int, int), Discriminator>)
    requires Ctxt__translate_enum__loop3_ok(List__iter_enumerated::<RsVariantDef>(vs), i, a, r, sp, size, align, t, RsTagEncoding::Niche { untagged_variant: un, niche_variants: range, niche_start: first }, ls, off, tag, c, acc, br), 0 <= i <= vs.s.len(),
        told_apart(a, c.tcx, vs.s.len() as int, t), told_apart_niche(a, c.tcx, vs.s.len() as int, t, tag, range, first),
        forall|j: int| 0 <= j < i ==> #[trigger] tagged_niche(a, c.tcx, vs.s, r, sp, ls.s, size, align, t, off, tag, un, range, first, acc, br, j),
        forall|k: (int, int)| #[trigger] br.m.contains_key(k) ==> of_niche(a, c.tcx, vs.s.len() as int, t, tag, un, range, first, k),
    ensures ({
        let (g, out, br2) = Ctxt__translate_enum__loop3(List__iter_enumerated::<RsVariantDef>(vs), i, a, r, sp, size, align, t, RsTagEncoding::Niche { untagged_variant: un, niche_variants: range, niche_start: first }, ls, off, tag, c, acc, br);
        &&& g.tcx == c.tcx
        &&& forall|j: int| 0 <= j < vs.s.len() ==> #[trigger] tagged_niche(a, c.tcx, vs.s, r, sp, ls.s, size, align, t, off, tag, un, range, first, out, br2, j)
        &&& forall|k: (int, int)| #[trigger] br2.m.contains_key(k) ==> of_niche(a, c.tcx, vs.s.len() as int, t, tag, un, range, first, k)
    })
    decreases vs.s.len() - i
{
    let it = List__iter_enumerated::<RsVariantDef>(vs);
    let e = RsTagEncoding::Niche { untagged_variant: un, niche_variants: range, niche_start: first };
    Ctxt__translate_enum__loop3__def(it, i, a, r, sp, size, align, t, e, ls, off, tag, c, acc, br); Ctxt__translate_enum__loop3_ok__def(it, i, a, r, sp, size, align, t, e, ls, off, tag, c, acc, br);
    if i < vs.s.len() {
        assert(it.s[i] == (i, vs.s[i]));
        let d = discr(a, c.tcx, i, t);
        let v = niche_value(a, c.tcx, t, tag, range, first, i);
        let x = Ctxt__translate_adt_variant_fields(c, Some(ls.s[i].fields), vs.s[i], r, sp);
        one_entry(off, (tag, v));
        let ty = build__tuple_ty(List__iter::<(Size, Type)>(x.1), size, align);
        let tg = if i != un { Map__from_list::<Size, (IntType, int)>(List__into_iter::<(Size, (IntType, int))>(List__push::<(Size, (IntType, int))>(List__new::<(Size, (IntType, int))>(), (off, (tag, v))))) } else { Map__new::<Size, (IntType, int)>() };
        let acc2 = Map__insert::<int, Variant>(acc, d, Variant { ty, tagger: tg }).0;
        let br2 = if i != un { Map__insert::<(int, int), Discriminator>(br, (v, v + 1), Discriminator::Known(d)).0 } else if RsVariantRange__contains(range, i) { Map__insert::<(int, int), Discriminator>(br, (v, v + 1), Discriminator::Invalid).0 } else { br };
        assert forall|j: int| 0 <= j < i + 1 implies #[trigger] tagged_niche(a, c.tcx, vs.s, r, sp, ls.s, size, align, t, off, tag, un, range, first, acc2, br2, j) by {
            if j < i { assert(tagged_niche(a, c.tcx, vs.s, r, sp, ls.s, size, align, t, off, tag, un, range, first, acc, br, j)); assert(discr(a, c.tcx, j, t) != d); assert(niche_value(a, c.tcx, t, tag, range, first, j) != v); }
        }
        assert forall|k: (int, int)| #[trigger] br2.m.contains_key(k) implies of_niche(a, c.tcx, vs.s.len() as int, t, tag, un, range, first, k) by { if k != (v, v + 1) { assert(br.m.contains_key(k)); } else if !br.m.contains_key(k) { assert(marked(un, range, i)); } }
        mir_niche(vs, i + 1, a, r, sp, size, align, t, un, range, first, ls, off, tag, x.0, acc2, br2);
    }
}
pub open spec fn in_niche_range(lo: int, hi: int, v: int) -> bool { if lo <= hi { lo <= v <= hi } else { v <= hi || lo <= v } }
/// the smallest and the largest value of a tag
pub open spec fn tag_least(tag: RsTagScalar, t: IntType, tcx: RsTyCtxt) -> int { if t.signed is Signed { RsSize__signed_int_min(RsTagScalar__size(tag, tcx)) } else { 0int } }
pub open spec fn tag_most(tag: RsTagScalar, t: IntType, tcx: RsTyCtxt) -> int { if t.signed is Signed { RsSize__signed_int_max(RsTagScalar__size(tag, tcx)) } else { RsSize__unsigned_int_max(RsTagScalar__size(tag, tcx)) } }
/// no variant is known by this value of the tag: reading it is undefined behaviour
pub open spec fn no_variant(br: Map<(int, int), Discriminator>, v: int) -> bool { exists|lo: int, hi: int| lo <= v < hi && #[trigger] br.m.contains_key((lo, hi)) && br.m[(lo, hi)] is Invalid }
/// an enum is translated with the compiler's size and alignment, the compiler's discriminant for every variant, the compiler's tag at the compiler's place: one variant (nothing is written or read), a tag that is the discriminant, or a niche
pub proof fn mir_enum(c: Ctxt, ty: RsTy, a: RsAdtDef, r: RsGenericArgsRef, sp: RsSpan, dt: IntType, tt: IntType)
    requires Ctxt__translate_enum_ok(c, ty, a, r, sp), Ctxt__translate_ty(c, RsTy__discriminant_ty(ty, c.tcx), sp).1 == Type::Int(dt), told_apart(a, c.tcx, RsAdtDef__variants(a).s.len() as int, dt),
        ({ let l = Ctxt__rs_layout_of(c, ty).layout; let n = RsAdtDef__variants(a).s.len() as int;
            RsLayout__variants(l) is Multiple ==> {
                let m = RsLayout__variants(l);
                &&& Ctxt__translate_ty(Ctxt__translate_ty(c, RsTy__discriminant_ty(ty, c.tcx), sp).0, RsPrimitive__to_int_ty(RsTagScalar__primitive(m->tag), c.tcx), sp).1 == Type::Int(tt)
                &&& m->tag_encoding is Niche ==> {
                    let e = m->tag_encoding;
                    let w = RsTagScalar__valid_range(m->tag, c.tcx);
                    &&& told_apart_niche(a, c.tcx, n, dt, tt, e->niche_variants, e->niche_start)
                    &&& forall|i: int| 0 <= i < n && marked(e->untagged_variant, e->niche_variants, i) ==> in_niche_range(mini__int_from_bits(w.start, tt), mini__int_from_bits(w.end, tt), #[trigger] niche_value(a, c.tcx, dt, tt, e->niche_variants, e->niche_start, i))
                        && tag_least(m->tag, tt, c.tcx) <= niche_value(a, c.tcx, dt, tt, e->niche_variants, e->niche_start, i) <= tag_most(m->tag, tt, c.tcx)
                }
            } })
    ensures ({
        let l = Ctxt__rs_layout_of(c, ty).layout;
        let vs = RsAdtDef__variants(a).s;
        let n = vs.len() as int;
        let size = mini__translate_size(RsLayout__size(l));
        let align = mini__translate_align(RsLayout__align(l).abi);
        let res = Ctxt__translate_enum(c, ty, a, r, sp).1;
        &&& res is Enum && res->Enum_size == size && res->Enum_align == align && res->Enum_discriminant_ty == dt
        &&& match RsLayout__variants(l) {
            RsVariants::Empty => res->Enum_variants.m == vstd::map::Map::<int, Variant>::empty() && res->Enum_discriminator is Invalid,
            RsVariants::Single { index } => res->Enum_discriminator == Discriminator::Known(discr(a, c.tcx, index, dt)) && forall|i: int| 0 <= i < n ==> #[trigger] alone(a, c.tcx, vs, r, sp, l, size, align, dt, index, res->Enum_variants, i),
            RsVariants::Multiple { tag, tag_encoding, tag_field, variants } => {
                let off = mini__translate_size(RsFieldsShape__offset(RsLayout__fields(l), tag_field));
                let d = res->Enum_discriminator;
                &&& d is Branch && d->offset == off && d->value_type == tt
                &&& match tag_encoding {
                    RsTagEncoding::Direct => {
                        &&& *d->fallback is Invalid
                        &&& forall|i: int| 0 <= i < n ==> #[trigger] tagged_direct(a, c.tcx, vs, r, sp, variants.s, size, align, dt, off, tt, res->Enum_variants, d->children, i)
                        &&& forall|k: (int, int)| #[trigger] d->children.m.contains_key(k) ==> of_variant(a, c.tcx, n, dt, k)
                    }
                    RsTagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                        let w = RsTagScalar__valid_range(tag, c.tcx);
                        let lo = mini__int_from_bits(w.start, tt);
                        let hi = mini__int_from_bits(w.end, tt);
                        &&& *d->fallback == Discriminator::Known(untagged_variant)
                        &&& forall|i: int| 0 <= i < n ==> #[trigger] tagged_niche(a, c.tcx, vs, r, sp, variants.s, size, align, dt, off, tt, untagged_variant, niche_variants, niche_start, res->Enum_variants, d->children, i)
                        &&& forall|v: int| tag_least(tag, tt, c.tcx) <= v <= tag_most(tag, tt, c.tcx) && !in_niche_range(lo, hi, v) ==> #[trigger] no_variant(d->children, v)
                        &&& forall|k: (int, int)| #[trigger] d->children.m.contains_key(k) ==> of_niche(a, c.tcx, n, dt, tt, untagged_variant, niche_variants, niche_start, k)
                            || d->children.m[k] is Invalid && forall|v: int| k.0 <= v < k.1 ==> !in_niche_range(lo, hi, v)
                    }
                }
            }
        }
    })
{
    Ctxt__translate_enum__def(c, ty, a, r, sp); Ctxt__translate_enum_ok__def(c, ty, a, r, sp);
    let l = Ctxt__rs_layout_of(c, ty).layout;
    let vs = RsAdtDef__variants(a);
    let size = mini__translate_size(RsLayout__size(l));
    let align = mini__translate_align(RsLayout__align(l).abi);
    let c1 = Ctxt__translate_ty(c, RsTy__discriminant_ty(ty, c.tcx), sp).0;
    let none = Map__new::<int, Variant>();
    let nobr = Map__new::<(int, int), Discriminator>();
    match RsLayout__variants(l) {
        RsVariants::Empty => {
            let it = List__iter_enumerated::<RsVariantDef>(vs);
            Ctxt__translate_enum__loop1__def(it, 0, c1); Ctxt__translate_enum__loop1_ok__def(it, 0, c1);
        }
        RsVariants::Single { index } => { mir_single(vs, 0, a, r, sp, l, size, align, dt, index, c1, none); }
        RsVariants::Multiple { tag, tag_encoding, tag_field, variants } => {
            let off = mini__translate_size(RsFieldsShape__offset(RsLayout__fields(l), tag_field));
            let c2 = Ctxt__translate_ty(c1, RsPrimitive__to_int_ty(RsTagScalar__primitive(tag), c.tcx), sp).0;
            match tag_encoding {
                RsTagEncoding::Direct => { mir_direct(vs, 0, a, r, sp, size, align, dt, variants, off, tt, c2, none, nobr); }
                RsTagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                    mir_niche(vs, 0, a, r, sp, size, align, dt, untagged_variant, niche_variants, niche_start, variants, off, tt, c2, none, nobr);
                    let (_, out, br) = Ctxt__translate_enum__loop3(List__iter_enumerated::<RsVariantDef>(vs), 0, a, r, sp, size, align, dt, tag_encoding, variants, off, tt, c2, none, nobr);
                    let w = RsTagScalar__valid_range(tag, c.tcx);
                    let lo = mini__int_from_bits(w.start, tt);
                    let hi = mini__int_from_bits(w.end, tt);
                    let (mn, mx) = (tag_least(tag, tt, c.tcx), tag_most(tag, tt, c.tcx));
                    let bad = Discriminator::Invalid;
                    let br2 = if lo <= hi {
                        let b = if hi < mx { Map__insert::<(int, int), Discriminator>(br, (hi + 1, mx + 1), bad).0 } else { br };
                        if mn < lo { Map__insert::<(int, int), Discriminator>(b, (mn, lo), bad).0 } else { b }
                    } else if hi + 1 < lo { Map__insert::<(int, int), Discriminator>(br, (hi + 1, lo), bad).0 } else { br };
                    let res = Ctxt__translate_enum(c, ty, a, r, sp).1;
                    assert(res->Enum_discriminator->children.m =~= br2.m);
                    assert(res->Enum_variants == out);
                    let n = vs.s.len() as int;
                    assert forall|i: int| 0 <= i < n implies #[trigger] tagged_niche(a, c.tcx, vs.s, r, sp, variants.s, size, align, dt, off, tt, untagged_variant, niche_variants, niche_start, out, br2, i) by {
                        assert(tagged_niche(a, c.tcx, vs.s, r, sp, variants.s, size, align, dt, off, tt, untagged_variant, niche_variants, niche_start, out, br, i));
                        let v = niche_value(a, c.tcx, dt, tt, niche_variants, niche_start, i);
                        if marked(untagged_variant, niche_variants, i) { assert(in_niche_range(lo, hi, v)); }
                    }
                    assert forall|v: int| mn <= v <= mx && !in_niche_range(lo, hi, v) implies #[trigger] no_variant(br2, v) by {
                        if lo <= hi { if v > hi { assert(br2.m.contains_key((hi + 1, mx + 1))); } else { assert(br2.m.contains_key((mn, lo))); } }
                        else { assert(br2.m.contains_key((hi + 1, lo))); }
                    }
                    assert forall|k: (int, int)| #[trigger] br2.m.contains_key(k) implies of_niche(a, c.tcx, n, dt, tt, untagged_variant, niche_variants, niche_start, k) || br2.m[k] is Invalid && forall|v: int| k.0 <= v < k.1 ==> !in_niche_range(lo, hi, v) by {
                        if br.m.contains_key(k) { assert(of_niche(a, c.tcx, n, dt, tt, untagged_variant, niche_variants, niche_start, k)); }
                    }
                }
            }
        }
    }
}
/// the discriminant of a variant is the one its enum was translated with
pub proof fn mir_variant_discriminant(c: Ctxt, ty: RsTy, i: int, sp: RsSpan, a: RsAdtDef, g: RsGenericArgsRef, dt: IntType)
    requires Ctxt__discriminant_for_variant_ok(c, ty, i, sp), RsTy__kind(ty) == RsTyKind::Adt(a, g), Ctxt__translate_ty(c, RsTy__discriminant_ty(ty, c.tcx), sp).1 == Type::Int(dt)
    ensures Ctxt__discriminant_for_variant(c, ty, i, sp).1 == discr(a, c.tcx, i, dt)
{ reveal(Ctxt__discriminant_for_variant); reveal(Ctxt__discriminant_for_variant_ok); }
/// the value of the compiler's bits in an integer type: cut to its size, and signed where the type is
pub proof fn mir_bits(b: int, t: IntType)
    requires mini__int_from_bits_ok(b, t)
    ensures ({
        let s = RsSize__from_bits(int__try_to_u8(Size__bits(t.size))->0);
        mini__int_from_bits(b, t) == if t.signed is Unsigned { RsSize__truncate(s, b) } else { int_as(RsSize__sign_extend(s, b), true, 128int) }
    })
{ reveal(mini__int_from_bits); reveal(mini__int_from_bits_ok); }
pub proof fn mir_variant_fields(f: FnCtxt, l: List<SmOperand>, i: int, sp: RsSpan, g: FnCtxt, acc: List<ValueExpr>)
    requires FnCtxt__translate_rvalue_smir__loop2_ok(l, i, sp, g, acc), 0 <= i <= l.s.len(), acc.s.len() == i, same_fn(f, g), tr_ops(f, l.s, acc.s, i)
    ensures ({ let out = FnCtxt__translate_rvalue_smir__loop2(l, i, sp, g, acc).1; out.s.len() == l.s.len() && tr_ops(f, l.s, out.s, l.s.len() as int) })
    decreases l.s.len() - i
{
    reveal_with_fuel(FnCtxt__translate_rvalue_smir__loop2, 2); reveal_with_fuel(FnCtxt__translate_rvalue_smir__loop2_ok, 2);
    if i < l.s.len() {
        let a = FnCtxt__translate_operand_smir(g, l.s[i], sp);
        let acc2 = List { s: acc.s.push(a.1) };
        assert forall|j: int| 0 <= j < i + 1 implies tr_op(f, l.s[j], #[trigger] acc2.s[j]) by { if j < i { assert(acc2.s[j] == acc.s[j]); } }
        mir_variant_fields(f, l, i + 1, sp, a.0, acc2);
    }
}
/// making a value of an enum: the variant named, under its discriminant, with exactly the operands named
pub proof fn mir_variant(f: FnCtxt, a: int, v: int, x3: int, x4: int, x5: Option<int>, l: List<SmOperand>, sp: RsSpan)
    requires ({
        let k = SmAggregateKind::Adt(a, v, x3, x4, x5); let r = SmRvalue::Aggregate(k, l);
        FnCtxt__translate_rvalue_smir_ok(f, r, sp) && Ctxt__translate_ty_smir(f.cx, SmRvalue__ty(r, f.locals_smir)->0, sp).1 is Enum
    })
    ensures ({
        let r = SmRvalue::Aggregate(SmAggregateKind::Adt(a, v, x3, x4, x5), l);
        let t = Ctxt__translate_ty_smir(f.cx, SmRvalue__ty(r, f.locals_smir)->0, sp).1;
        let e = FnCtxt__translate_rvalue_smir(f, r, sp).1;
        &&& e is Variant && e->enum_ty == t
        &&& exists|c: Ctxt| c.tcx == f.cx.tcx && e->Variant_discriminant == (#[trigger] Ctxt__discriminant_for_variant_smir(c, SmRvalue__ty(r, f.locals_smir)->0, v, sp)).1
        &&& t->Enum_variants.m.contains_key(e->Variant_discriminant)
        &&& *e->data is Tuple && (*e->data)->Tuple_1 == t->Enum_variants.m[e->Variant_discriminant].ty && (*e->data)->Tuple_0.s.len() == l.s.len() && tr_ops(f, l.s, (*e->data)->Tuple_0.s, l.s.len() as int)
    })
{
    reveal(FnCtxt__translate_rvalue_smir); reveal(FnCtxt__translate_rvalue_smir_ok);
    let r = SmRvalue::Aggregate(SmAggregateKind::Adt(a, v, x3, x4, x5), l);
    let ty = SmRvalue__ty(r, f.locals_smir)->0;
    let g = FnCtxt { cx: Ctxt__translate_ty_smir(f.cx, ty, sp).0, ..f };
    let d = Ctxt__discriminant_for_variant_smir(g.cx, ty, v, sp);
    let g2 = FnCtxt { cx: d.0, ..g };
    mir_variant_fields(f, l, 0, sp, g2, List__new::<ValueExpr>());
}
/// asking for a discriminant reads it from the place named
pub proof fn mir_discriminant(f: FnCtxt, p: SmPlace, sp: RsSpan)
    requires FnCtxt__translate_rvalue_smir_ok(f, SmRvalue::Discriminant(p), sp)
    ensures ({ let e = FnCtxt__translate_rvalue_smir(f, SmRvalue::Discriminant(p), sp).1; e is GetDiscriminant && tr_place(f, p, *e->GetDiscriminant_place) })
{
    reveal(FnCtxt__translate_rvalue_smir); reveal(FnCtxt__translate_rvalue_smir_ok);
}
