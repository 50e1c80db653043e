//@include shims.vrs
//@include slice_spec.vrs
//@include slice_shim.vrs
//@include regex_syntax.vrs
//@include fmt_spec.vrs
//@include macro_model.vrs
//@include format_model.vrs
verus! {
pub mod syn_more { }
pub mod code {
use super::*;
broadcast use {parts_push, matches_push, caps_push, tys_push, tys_none, error_tokens, all_parts_toks, all_caps_toks, all_matches_toks, empty_add, joined};
//@stub format_parser.vrs FormatString::new
//@stub types.vrs Type::from_str
//@fn sscanf_macro/src/error.rs ErrorBuilder::new
//@flag props=C09
//@ensures
    res.0@.len() == 0,
//@end
//@fn sscanf_macro/src/error.rs ErrorBuilder::with_error
//@flag props=C09
//@ensures
    final(self).0@ == final(res).0@, (*res).0@ == old(self).0@ + etoks($0),
//@flag call=TokenStream::from=>vx_error_tokens
//@end
//@fn sscanf_macro/src/error.rs ErrorBuilder::with_spanned
//@flag props=C09
//@ensures
    final(self).0@ == final(res).0@, grown(old(self).0@, (*res).0@),
//@flag generics=<T, U>
//@flag call=Error::new_spanned=>vx_error_at
//@end
//@fn sscanf_macro/src/error.rs ErrorBuilder::push
//@flag props=C09
//@ensures
    final(self).0@ == old(self).0@ + etoks($0),
//@end
//@fn sscanf_macro/src/error.rs ErrorBuilder::is_empty
//@flag props=C09
//@ensures
    res == (self.0@.len() == 0),
//@end
//@fn sscanf_macro/src/error.rs ErrorBuilder::build
//@flag props=C09
//@requires
    is_error(old(self).0@),
//@ensures
    etoks(res) == old(self).0@, final(self).0@.len() == 0,
//@flag call=mem::take=>vx_take_tokens
//@flag call=Error=>vx_error_of
//@end
//@fn sscanf_macro/src/error.rs ErrorBuilder::build_err
//@flag props=C09
//@requires
    is_error(old(self).0@),
//@ensures
    res is Err, final(self).0@.len() == 0,
//@end
//@fn sscanf_macro/src/error.rs ErrorBuilder::ok_or_build
//@flag props=C09
//@requires
    old(self).0@.len() == 0 || is_error(old(self).0@),
//@ensures
    res is Ok <==> old(self).0@.len() == 0, final(self).0@.len() == 0,
//@end
//@fn sscanf_macro/src/error.rs Error::builder
//@flag props=C09
//@ensures
    res.0@.len() == 0,
//@end
//@fn sscanf_macro/src/ty.rs Type::inner
//@flag props=C09
//@ensures
    *res == self.ty,
//@end
//@fn sscanf_macro/src/ty.rs Type::full_span
//@flag props=C09
//@end
//@fn sscanf_macro/src/ty.rs Type::error
//@flag props=C09
//@flag generics=<U>
//@flag call=Error::new_spanned=>vx_error_at
//@end
//@fn sscanf_macro/src/regex_parts.rs binary_length
//@flag props=C04
//@ensures
    match bits($0@) { Some(n) => res is Some && res->0 == n, None => res is None },
//@end
/// regex_from_radix: its outcome is read from the code the macro emits, for every radix, prefix and type (units emitted_radix_*)
#[verifier::external_body] pub fn regex_from_radix(radix: u8, policy: PrefixPolicy, ty: &Type) -> (r: Result<(RegexPart, Converter)>)
    ensures match bits(type_text(ty.ty)) {
        Some(_) => r is Ok && part_view((r->Ok_0).0) == PartV::Custom(radix_re(radix as int, policy, ty.ty)) && conv_view((r->Ok_0).1) == ConvV::Custom(radix_conv(radix as int, policy, ty.ty)),
        None => r is Err },
{ unimplemented!() }
//@fn sscanf_macro/src/regex_parts.rs RegexParts::empty
//@flag props=C09
//@ensures
    res.regex_builder@.len() == 0, res.matchers@.len() == 0,
//@end
//@fn sscanf_macro/src/regex_parts.rs RegexParts::push_literal
//@flag props=C01 C09
//@ensures
    parts_view(final(self).regex_builder@) == parts_view(old(self).regex_builder@).push(PartV::Lit($0.text())),
    final(self).matchers == old(self).matchers,
//@flag generics=<T: VxInto>
//@flag param=0 T
//@flag rename_method=into=>vx_into
//@end
//@fn sscanf_macro/src/regex_parts.rs RegexParts::new
//@flag props=C09
//@requires
    $0.parts@.len() == $0.placeholders@.len() + 1, $1@.len() == $0.placeholders@.len(),
//@ensures
    res is Ok <==> ph_ok(phs_view($0.placeholders@), tys_view($1@), $1@.len() as int), // [C04]
    res is Ok ==> parts_view((res->Ok_0).regex_builder@) == all_parts(strs($0.parts@), phs_view($0.placeholders@), tys_view($1@)), // [C01 C09 C11 C19]
    res is Ok ==> same_convs(matches_view((res->Ok_0).matchers@), phs_view($0.placeholders@), tys_view($1@), $1@.len() as int), // [C09 C16]
    res is Ok ==> same_caps(matches_view((res->Ok_0).matchers@), phs_view($0.placeholders@), tys_view($1@), $1@.len() as int), // [C11]
//@role ret = init Self::empty()
//@flag keep_use
//@flag quote_leaves
//@flag rename_method=clone=>vx_clone
//@loop 0
    invariant
        vx_i0 <= $1@.len(),
        ph_ok(phs_view($0.placeholders@), tys_view($1@), vx_i0 as int), // [C04]
        parts_view($ret.regex_builder@) == parts_upto(strs($0.parts@), phs_view($0.placeholders@), tys_view($1@), vx_i0 as int), // [C01 C09 C11 C19]
        same_convs(matches_view($ret.matchers@), phs_view($0.placeholders@), tys_view($1@), vx_i0 as int), // [C09 C16]
        same_caps(matches_view($ret.matchers@), phs_view($0.placeholders@), tys_view($1@), vx_i0 as int), // [C11]
    decreases $1@.len() - vx_i0,
//@loop_begin 0
    let ghost vx_g = ph_part(phs_view($0.placeholders@)[vx_i0 as int], tys_view($1@)[vx_i0 as int]);
//@end
//@fn sscanf_macro/src/regex_parts.rs RegexParts::regex
//@flag props=C09 C11 C19
//@ensures
    res@ == part_toks(parts_view(self.regex_builder@)),
//@flag quote_leaves
//@end
//@fn sscanf_macro/src/regex_parts.rs RegexParts::num_captures_list
//@flag props=C11
//@ensures
    caps_view(res@) == caps_of(matches_view(self.matchers@)),
//@role list = init vec![NumCaptures::One]
//@flag rename_method=clone=>vx_clone
//@loop 0
    invariant
        vx_i0 <= self.matchers@.len(), caps_view($list@) == caps_of(matches_view(self.matchers@.take(vx_i0 as int))),
    decreases self.matchers@.len() - vx_i0,
//@loop_begin 0
    let ghost l0 = $list@;
//@loop_end 0
    proof { assert(caps_of(matches_view(self.matchers@.take(vx_i0 as int))) =~= caps_of(matches_view(self.matchers@.take(vx_i0 - 1))).push(match_view(self.matchers@[vx_i0 - 1]).caps)); }
//@before_loop 0
    proof { assert(caps_view($list@) =~= caps_of(matches_view(self.matchers@.take(0)))); }
//@after_loop 0
    proof { assert(self.matchers@.take(vx_i0 as int) =~= self.matchers@); }
//@end
//@fn sscanf_macro/src/regex_parts.rs RegexParts::num_captures
//@flag props=C11
//@ensures
    res@ == cap_toks(caps_of(matches_view(self.matchers@))),
//@flag quote_leaves
//@end
//@fn sscanf_macro/src/lib.rs generate_regex::find_ph_type as find_ph_type free
//@flag props=C09 C11 C19
//@flag props=C09
//@requires
    old($1)@.len() == $3@.len(), *old($2) < usize::MAX,
//@ensures
    final($1)@.len() == old($1)@.len(),
    match ph_view(*$0).ident { None => *final($2) == *old($2) + 1, Some(n) => *final($2) == *old($2) },
    match (match ph_view(*$0).ident { None => Some(*old($2) as int), Some(n) => unsigned(n.2, 10, usize::MAX as int) }) {
        Some(k) => if 0 <= k < $3@.len() { res is Ok && ty_view(res->Ok_0) == ty_view($3@[k]) && final($1)@ == old($1)@.update(k, true) } else { res is Err && final($1)@ == old($1)@ },
        None => final($1)@ == old($1)@ && match type_of_text((ph_view(*$0).ident->0).2) { Some(t) => res is Ok && ty_view(res->Ok_0) == (TyV { ty: t, kind: kind_of(t) }), None => res is Err },
    },
//@flag param=1 &mut Vec<bool>
//@flag rename_method=clone=>vx_clone
//@end
//@fn sscanf_macro/src/lib.rs generate_regex
//@ensures
    match code_of($0.fmt.slice(), tys_view($0.type_tokens@), $1) {
        Code::Err => res is Err,
        Code::Ok(t, p, ty) => res is Ok && (res->Ok_0).0@ == regex_toks(t, p, ty) && matches_view((res->Ok_0).1@) == matches_of(p, ty, p.len() as int),
    },
//@role format = callarg RegexParts::new 0
//@role index = callarg find_ph_type 2
//@role visited = callarg find_ph_type 1
//@role types = callarg RegexParts::new 1
//@role error = recv ok_or_build
//@flag quote_leaves
//@flag method_mut=insert=>string_insert
//@flag method_mut=last_mut=>vx_last_mut
//@begin
    let ghost fm = fmt_of($0.fmt.slice(), $1);
    let ghost given = tys_view($0.type_tokens@);
    let ghost phs = fm->Ok_1;
    proof { one_more($0.fmt.slice().s(), $0.fmt.slice().raw(), $1, $0.fmt.slice().lo(), 0, Seq::empty(), Seq::empty(), Seq::empty()); }
//@before_loop 0
    proof { assert(phs_view($format.placeholders@) == phs); assert(strs($format.parts@) =~= anchored(fm->Ok_0)); assert(tys_view($types@) =~= types_of(phs, given, 0)); }
//@loop 0
    invariant
        vx_i0 <= $format.placeholders@.len(),
        $visited@.len() == given.len(),
        $index == unnamed(phs, vx_i0 as int), $index <= vx_i0,
        forall|k: int| 0 <= k < given.len() ==> #[trigger] $visited@[k] == taken(phs, k, vx_i0 as int),
        $error.0@.len() == 0 || is_error($error.0@),
        $error.0@.len() == 0 <==> types_ok(phs, given, vx_i0 as int),
        types_ok(phs, given, vx_i0 as int) ==> tys_view($types@) == types_of(phs, given, vx_i0 as int),
    decreases $format.placeholders@.len() - vx_i0,
//@loop_begin 0
    proof { taken_step(phs, vx_i0 as int); types_step(phs, given, vx_i0 as int); assert(given.len() == $0.type_tokens@.len()); }
//@loop 1
    invariant
        vx_i1 <= $visited@.len(),
        $error.0@.len() == 0 || is_error($error.0@),
        $error.0@.len() == 0 <==> types_ok(phs, given, phs.len() as int) && (forall|k: int| 0 <= k < vx_i1 ==> #[trigger] $visited@[k]),
    decreases $visited@.len() - vx_i1,
//@after_loop 1
    proof { let n = phs.len() as int; if all_taken(phs, given.len() as int) { assert forall|k: int| 0 <= k < vx_i1 implies #[trigger] $visited@[k] by { assert(taken(phs, k, n)); } }
        if $error.0@.len() == 0 { assert forall|k: int| 0 <= k < given.len() implies #[trigger] taken(phs, k, n) by { assert($visited@[k]); } } }
//@end
//@fn sscanf_macro/src/lib.rs sscanf_internal
//@flag props=C09 C19
//@ensures
    is_scan_of(res@, $0.src_str, $0.inner.fmt.slice(), tys_view($0.inner.type_tokens@), $1),
//@flag type=TokenStream1=>TokenStream
//@flag rename_method=into=>vx_tokens
//@flag quote_leaves
//@end
//@fn sscanf_macro/src/lib.rs sscanf
//@flag props=C01 C09 C19
//@ensures
    is_scan(res@, $0.lex(), true),
//@flag type=TokenStream1=>TokenStream
//@end
//@fn sscanf_macro/src/lib.rs sscanf_unescaped
//@flag props=C19
//@ensures
    is_scan(res@, $0.lex(), false),
//@flag type=TokenStream1=>TokenStream
//@end
//@fn sscanf_macro/src/lib.rs sscanf_get_regex
//@flag props=C19
//@ensures
    is_get_regex(res@, $0.lex()),
//@flag type=TokenStream1=>TokenStream
//@flag rename_method=into=>vx_tokens
//@flag quote_leaves
//@end
//@fn sscanf_macro/src/lib.rs Parse@ScanfInner::parse as parse
//@flag props=C09
//@ensures
    <ScanfInner as Parse>::parses(old($0)@, res, final($0)@),
//@flag type=ParseStream=>&mut ParseBuffer
//@flag err_suffix
//@end
//@fn sscanf_macro/src/lib.rs Parse@Scanf::parse as parse
//@flag props=C09
//@ensures
    <Scanf as Parse>::parses(old($0)@, res, final($0)@),
//@flag type=ParseStream=>&mut ParseBuffer
//@flag err_suffix
//@end
}
} // verus!
fn main() {}
