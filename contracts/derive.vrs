//@include shims.vrs
//@include slice_spec.vrs
//@include slice_shim.vrs
//@include regex_syntax.vrs
//@include fmt_spec.vrs
//@include macro_model.vrs
//@include format_model.vrs
//@include derive_model.vrs
verus! {
pub mod code {
use super::*;
pub mod derive { pub use super::*; }
use super::dv::*;
broadcast use {parts_push, matches_push, caps_push, tys_push, tys_none, error_tokens, all_parts_toks, all_caps_toks, all_matches_toks, empty_add, joined, set_items, flat_push, fmt_more};
#[verifier::external_body] pub fn vx_err() -> Error { unimplemented!() }
//@stub format_parser.vrs FormatString::new
//@stub macros.vrs ErrorBuilder::push
//@stub macros.vrs ErrorBuilder::with_spanned
//@stub macros.vrs ErrorBuilder::ok_or_build
//@stub macros.vrs Error::builder
//@stub macros.vrs Type::full_span
//@stub macros.vrs RegexParts::empty
//@stub macros.vrs RegexParts::push_literal
//@stub macros.vrs RegexParts::new
//@stub macros.vrs RegexParts::regex
//@stub macros.vrs RegexParts::num_captures_list
//@stub macros.vrs RegexParts::num_captures
//@stub types.vrs Type::from_ty
//@fn sscanf_macro/src/ty.rs TypeKind::lifetime
//@flag props=C16
//@ensures
    match res { Some(l) => lt_of(*self) == Some(*l), None => lt_of(*self) is None },
//@end
//@fn sscanf_macro/src/ty.rs Type::lifetime
//@flag props=C16
//@ensures
    match res { Some(l) => lt_of(self.kind) == Some(*l), None => lt_of(self.kind) is None },
//@end
//@fn sscanf_macro/src/derive.rs FieldIdent::from_index
//@flag props=C10
//@ensures
    res.toks() == seq![Tok::Id(dec($0 as int))],
//@end
//@fn sscanf_macro/src/derive.rs ToTokens@FieldIdent::to_tokens as to_tokens
//@flag props=C10
//@ensures
    final($0)@ == old($0)@ + self.toks(),
//@flag quote_leaves=only
//@end
//@fn sscanf_macro/src/derive.rs ValueSource::error
//@flag props=C10
//@requires
    self matches ValueSource::Placeholder(i) ==> i < $1@.len(),
//@flag generics=<U>
//@flag call=Error::new_spanned=>vx_error_at
//@end
//@fn sscanf_macro/src/derive.rs ValueSource::get
//@flag props=C10
//@requires
    self matches ValueSource::Placeholder(i) ==> i < $1@.len(),
//@ensures
    res@ == match *self { ValueSource::Default { def, src } => def.toks(), ValueSource::Placeholder(i) => seq![Tok::Match(match_view($1@[i as int]))] },
//@flag quote_leaves=only
//@flag map=option
//@end
//@fn sscanf_macro/src/derive.rs ValueSource::index_or
//@flag props=C10 C11
//@ensures
    res == match *self { ValueSource::Default { def, src } => $0, ValueSource::Placeholder(i) => i },
//@end
//@fn sscanf_macro/src/derive.rs ValueConversion::apply
//@flag props=C10
//@ensures
    res@ == (match self.with {
        ValueConversionMethod::From => raw_toks(self.to) + raw_toks(self.from) + $0@,
        ValueConversionMethod::TryFrom => raw_toks(self.to) + raw_toks(self.from) + $0@,
        ValueConversionMethod::Map(c) => raw_toks(self.from) + raw_toks(self.to) + raw_toks(c) + $0@,
        ValueConversionMethod::FilterMap(c) => raw_toks(self.from) + raw_toks(self.to) + raw_toks(c) + $0@ + $1.toks(),
    }),
//@flag quote_leaves=only
//@flag keep_use
//@end
//@fn sscanf_macro/src/derive.rs parse_format
//@flag props=C10 C11
//@role format = callarg RegexParts::new 0
//@role error = recv ok_or_build
//@role to = init ~vx_vec_repeat(0,
//@role fields = recv push Field{
//@role map = recv get text()
//@role lts = recv insert lt.
//@role out = recv push vx_new
//@role parts = init ~RegexParts::new(
//@begin
    let ghost fs = fields_in($1.v@);
    let ghost fm = struct_fmt($0.kind, fs.len() as int);
    let ghost phs = fm->Ok_1;
    let ghost m = phs.len() as int;
    let ghost gn = fs.len() as int;
    let ghost fin = with_all(fs, phs, m);
    let ghost mut gk: Seq<int> = Seq::empty();
    let ghost mut gf: Seq<Field> = Seq::empty();
    let ghost mut ord: Seq<int> = Seq::empty();
    proof { all_wf(fs, phs, m); full_is(fin.src); }
//@ensures
    res is Ok <==> derived(fields_in($1.v@), struct_fmt($0.kind, $1.v@.len() as int)) is Ok, // [C10 C17]
    match derived(fields_in($1.v@), struct_fmt($0.kind, $1.v@.len() as int)) { Derived::Ok(tx, p, ty, src) => parts_view((res->Ok_0).0.regex_builder@) == all_parts(tx, p, ty), Derived::Err => true }, // [C10 C11 C12]
    match derived(fields_in($1.v@), struct_fmt($0.kind, $1.v@.len() as int)) { Derived::Ok(tx, p, ty, src) => same_convs(matches_view((res->Ok_0).0.matchers@), p, ty, p.len() as int), Derived::Err => true }, // [C10 C16]
    match derived(fields_in($1.v@), struct_fmt($0.kind, $1.v@.len() as int)) { Derived::Ok(tx, p, ty, src) => same_caps(matches_view((res->Ok_0).0.matchers@), p, ty, p.len() as int), Derived::Err => true }, // [C11]
    match derived(fields_in($1.v@), struct_fmt($0.kind, $1.v@.len() as int)) { Derived::Ok(tx, p, ty, src) => makes((res->Ok_0).1@, fields_in($1.v@), src, matches_view((res->Ok_0).0.matchers@)), Derived::Err => true }, // [C10]
    match derived(fields_in($1.v@), struct_fmt($0.kind, $1.v@.len() as int)) { Derived::Ok(tx, p, ty, src) => (res->Ok_0).2@ == lifetimes(fields_in($1.v@), $1.v@.len() as int), Derived::Err => true }, // [C16]
//@common
        fs == fields_in($1.v@), gn == fs.len(), fm is Ok, fm == struct_fmt($0.kind, gn), phs == fm->Ok_1, m == phs.len(), fin == with_all(fs, phs, m), st_wf(fin, fs, m), fin.ok ==> to_in(fin, gn), phs_view($format.placeholders@) == phs,
//@loop 0
    invariant
        vx_i0 <= vx_v0_0@.len(), vx_v0_0@ == $1.v@,
        attrs_ok(fs, vx_i0 as int),
        $fields@.len() == vx_i0,
        forall|j: int| 0 <= j < vx_i0 ==> #[trigger] field_is($fields@[j], fs[j], j, start(fs, m).src[j]),
        map_is($map@, fs, vx_i0 as int),
        $lts@ == lifetimes(fs, vx_i0 as int), // [C16]
    decreases vx_v0_0@.len() - vx_i0,
//@loop_begin 0
    let ghost vx_f = fs[vx_i0 as int];
    proof { if !attrs_ok(fs, vx_i0 + 1) { attrs_bad(fs, vx_i0 + 1, gn); } }
    let ghost vx_m0 = $map@;
//@loop_end 0
    proof { map_step(vx_m0, $map@, fs, vx_i0 - 1); }
//@before_loop 1
    proof { names_wf(fs, phs, 0); all_wf(fs, phs, 0); }
//@loop 1
    invariant
        vx_i1 <= vx_v1_0@.len(), vx_v1_0@ == $format.placeholders@,
        map_is($map@, fs, gn),
        fields_are($fields@, fs, with_names(fs, phs, vx_i1 as int).src), to_is($to@, with_names(fs, phs, vx_i1 as int)),
        $error.0@.len() == 0 || is_error($error.0@),
        $error.0@.len() == 0 <==> with_names(fs, phs, vx_i1 as int).ok,
    decreases vx_v1_0@.len() - vx_i1,
//@loop_begin 1
    proof { names_wf(fs, phs, vx_i1 as int); names_wf(fs, phs, vx_i1 + 1); assert(phs[vx_i1 as int] == ph_view($format.placeholders@[vx_i1 as int])); match phs[vx_i1 as int].ident { Some(nm) => { named_in(fs, nm.2, gn); } None => {} } }
//@loop 2
    invariant
        vx_i2 <= vx_v2_0@.len(), vx_v2_0@ == $format.placeholders@, vx_it0 <= gn,
        fields_are($fields@, fs, with_all(fs, phs, vx_i2 as int).src), to_is($to@, with_all(fs, phs, vx_i2 as int)),
        read_all(with_all(fs, phs, vx_i2 as int).src, vx_it0 as int),
        $error.0@.len() == 0 || is_error($error.0@),
        $error.0@.len() == 0 <==> with_all(fs, phs, vx_i2 as int).ok,
    decreases vx_v2_0@.len() - vx_i2,
//@loop_begin 2
    let ghost vx_u = with_all(fs, phs, vx_i2 as int);
    proof { all_wf(fs, phs, vx_i2 as int); all_wf(fs, phs, vx_i2 + 1); assert(phs[vx_i2 as int] == ph_view($format.placeholders@[vx_i2 as int])); }
//@loop 3
    invariant_except_break
        vx_r is None, read_all(vx_u.src, vx_it0 as int),
    invariant
        vx_it0 <= gn, vx_u.src.len() == gn, fields_are($fields@, fs, vx_u.src),
    ensures
        match vx_r { Some(k) => k < gn && vx_it0 == k + 1 && read_all(vx_u.src, k as int) && vx_u.src[k as int] is No, None => vx_it0 == gn && read_all(vx_u.src, gn) },
    decreases gn - vx_it0,
//@after_loop 3
    proof { match vx_r { Some(k) => { free_at(vx_u.src, k as int); read_upd(vx_u.src, k as int, From::Ph(vx_i2 - 1)); } None => { free_at(vx_u.src, gn); } } }
//@loop 4
    invariant
        vx_it0 <= gn, fields_are($fields@, fs, fin.src),
        $error.0@.len() == 0 || is_error($error.0@),
        $error.0@.len() == 0 <==> fin.ok && read_all(fin.src, vx_it0 as int),
    decreases gn - vx_it0,
//@loop 5
    invariant
        vx_i3 <= vx_v3_0@.len(), vx_v3_0@ == $to@, fields_are($fields@, fs, fin.src), to_is($to@, fin), to_in(fin, gn), vx_c@.len() == vx_i3,
        forall|p: int| 0 <= p < vx_i3 ==> ty_view(#[trigger] vx_c@[p]) == as_ty(read_ty(fs[fin.to[p]])),
    decreases vx_v3_0@.len() - vx_i3,
//@loop_begin 5
    proof { assert(field_is($fields@[fin.to[vx_i3 as int]], fs[fin.to[vx_i3 as int]], fin.to[vx_i3 as int], fin.src[fin.to[vx_i3 as int]])); }
//@after_loop 5
    proof { assert(tys_view(vx_c@) =~= ph_tys(fs, fin.to)); }
//@loop 6
    invariant
        fields_are($fields@, fs, fin.src), vx_i4 <= $fields@.len(), vx_keys@.len() == vx_i4, read_all(fin.src, gn),
        forall|j: int| 0 <= j < vx_i4 && #[trigger] fin.src[j] is Ph ==> key_at(vx_keys@, j) == fin.src[j]->Ph_0,
    decreases $fields@.len() - vx_i4,
//@loop_begin 6
    proof { read_idx(fin.src, gn); assert(field_is($fields@[vx_i4 as int], fs[vx_i4 as int], vx_i4 as int, fin.src[vx_i4 as int])); assert(!(fin.src[vx_i4 as int] is No)); }
//@after_loop 6
    proof { gk = keys_of(vx_keys@); gf = $fields@; }
//@before_loop 7
    proof { ord = choose|p: Seq<int>| #[trigger] perm(p, gn) && sorted(p, gk) && $fields@ == permuted(p, gf); order_of(fin.src, ord, gk); }
//@loop 7
    invariant
        fields_are(gf, fs, fin.src), perm(ord, gn), read_all(fin.src, gn), $parts.matchers@.len() == m, vx_i5 <= vx_v5_0@.len(), vx_v5_0@ == permuted(ord, gf), $out@.len() == vx_i5,
        flat($out@, $out@.len() as int) == entries(fs, fin.src, matches_view($parts.matchers@), ord, vx_i5 as int),
    decreases vx_v5_0@.len() - vx_i5,
//@loop_begin 7
    let ghost vx_j = ord[vx_i5 as int];
    proof { read_idx(fin.src, gn); assert(field_is(gf[vx_j], fs[vx_j], vx_j, fin.src[vx_j])); assert(!(fin.src[vx_j] is No)); }
//@flag isolate
//@flag quote_leaves=only
//@flag keep_use
//@flag owned_loops
//@flag map=option
//@flag err_suffix
//@flag rename_method=clone=>vx_clone
//@flag rename_method=to_string=>vx_to_string
//@flag call=mem::replace=>vx_replace
//@flag reveal_lits
//@end
//@fn sscanf_macro/src/derive.rs merge_lifetimes
//@flag props=C16
//@ensures
    merged($0@, *$1, res.0.ident.s(), res.1), // [C16]
//@role lt = init ~Lifetime::new(
//@role wh = recv push vx_parse2
//@loop 0
    invariant_except_break
        vx_f is None, forall|j: int| 0 <= j < vx_i0 ==> (#[trigger] vx_v0_0@[j]).ident.s() != seq!['s', 't', 'a', 't', 'i', 'c'],
    invariant
        vx_i0 <= vx_v0_0@.len(), vx_v0_0@ == $0.items(),
    ensures
        named_static(vx_v0_0@, vx_f),
    decreases vx_v0_0@.len() - vx_i0,
//@loop 1
    invariant
        vx_i1 <= vx_v1_0@.len(), vx_v1_0@ == $0.items(), $wh.v@ == bounds($1.wc.predicates.v@, $lt.ident.s(), vx_v1_0@, vx_i1 as int), // [C16]
    decreases vx_v1_0@.len() - vx_i1,
//@flag list_iter
//@flag owned_loops
//@flag ident_eq
//@flag reveal_lits
//@flag quote_leaves=only
//@flag rename_method=clone=>vx_clone
//@end
//@fn sscanf_macro/src/derive.rs parse_struct
//@flag props=C10 C17
//@ensures
    res is Ok <==> struct_derived(fields_in($3.fields.v@), struct_attr($2@)) is Ok, // [C10 C17]
    res is Ok ==> struct_is((res->Ok_0)@, *$1, fields_in($3.fields.v@), struct_derived(fields_in($3.fields.v@), struct_attr($2@))), // [SHAPE]
//@flag quote_leaves=only
//@flag quote_ignore=0
//@flag err_suffix
//@end
//@fn sscanf_macro/src/derive.rs parse_enum
//@flag props=C10 C12
//@role parts = init ~RegexParts::empty()
//@role caps = init ~NumCaptures::One
//@role lts = init ~HashSet::new
//@role first = init true
//@role ctors = recv push matcher
//@role made = initpat parse_format( 1
//@begin
    let ghost vs = vars_in($3.variants@);
    let ghost au = auto_of(enum_attr($2@));
    let ghost mut fm: Seq<Seq<Tok>> = Seq::empty();
    proof { enum_next(vs, au, 0); }
//@ensures
    res is Ok <==> enum_ok(vars_in($3.variants@), enum_attr($2@)), // [C10 C12 C13]
    res is Ok ==> enum_is((res->Ok_0)@, *$1, vars_in($3.variants@), enum_attr($2@)), // [SHAPE]
//@loop 0
    invariant
        vx_i0 <= vx_v0_0@.len(), vx_v0_0@ == $3.variants@,
        enum_upto(vs, au, vx_i0 as int).ok,
        $ctors@.len() == enum_upto(vs, au, vx_i0 as int).used.len(), $first == ($ctors@.len() == 0),
        parts_view($parts.regex_builder@) == enum_upto(vs, au, vx_i0 as int).parts, // [SHAPE]
        caps_view($caps@) == enum_upto(vs, au, vx_i0 as int).caps, // [SHAPE]
        $lts@ == enum_upto(vs, au, vx_i0 as int).lts, // [C16]
        made(vs, au, enum_upto(vs, au, vx_i0 as int).used, fm), // [SHAPE]
        flat($ctors@, $ctors@.len() as int) == ctors(vs, au, enum_upto(vs, au, vx_i0 as int).used, fm, fm.len() as int), // [SHAPE]
    decreases vx_v0_0@.len() - vx_i0,
//@loop_begin 0
    let ghost vx_a = enum_upto(vs, au, vx_i0 as int);
    let ghost vx_b = enum_upto(vs, au, vx_i0 + 1);
    proof { enum_next(vs, au, vx_i0 + 1); if !vx_b.ok { enum_bad(vs, au, vx_i0 + 1, vs.len() as int); } }
//@loop_end 0
    proof { let x = $made@; ctors_same(vs, au, vx_a.used, vx_b.used, fm, fm.push(x), fm.len() as int); fm = fm.push(x); }
//@before_tail
    proof {
        let ss = enum_upto(vs, au, vs.len() as int);
        assert(vs.len() == $3.variants@.len()); // [SHAPE]
        assert(made(vs, au, ss.used, fm)); // [SHAPE]
        assert(caps_view($caps@) == ss.caps); // [SHAPE]
        assert(part_toks(parts_view($parts.regex_builder@)) == part_toks(ss.parts.push(PartV::Lit(seq![')'])))); // [SHAPE]
        assert(flat($ctors@, $ctors@.len() as int) == ctors(vs, au, ss.used, fm, ss.used.len() as int)); // [SHAPE]
    }
//@flag quote_leaves=only
//@flag quote_ignore=0
//@flag err_suffix
//@flag owned_loops
//@flag reveal_lits
//@flag method_mut=extend=>vx_extend
//@flag rename_method=clone=>vx_clone
//@end
//@fn sscanf_macro/src/derive.rs parse_union
//@flag props=C10
//@ensures
    res is Err,
//@flag err_suffix
//@end
//@fn sscanf_macro/src/lib.rs derive_from_sscanf
//@flag props=C10 C17
//@ensures
    derive_fails($0.lex()) ==> is_error(res@), // [C10 C17]
    !derive_fails($0.lex()) ==> is_derived(res@, (p_derive($0.lex())->0).0), // [SHAPE]
//@flag type=TokenStream1=>TokenStream
//@flag rename_method=into=>vx_tokens
//@end
}
} // verus!
fn main() {}
