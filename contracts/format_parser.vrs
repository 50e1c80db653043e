//@include shims.vrs
//@include slice_spec.vrs
//@include index_shim.vrs
//@include slice_shim.vrs
//@include regex_syntax.vrs
//@include fmt_spec.vrs
//@include format_model.vrs
verus! {
pub mod code {
use super::*;
broadcast use {off_inj, off_less, at_off, phs_push, strs_push, vstd::std_specs::vec::axiom_vec_index_decreases};

//@fn sscanf_macro/src/format_option.rs contains_capture_group
//@flag props=C01 C02 C03 C04 C11 C20
//@ensures
    res == has_capture(*$0),
//@decreases
    *$0
//@flag keep_use
//@flag method_ref=as_ref=>box_ref
//@loop 0
    invariant_except_break
        !vx_any, 0 <= vx_i0 <= vx_v0_0.len(), forall|i: int| 0 <= i < vx_i0 ==> !has_capture(#[trigger] vx_v0_0[i]),
    invariant
        hir.kind is Concat && vx_v0_0 == &hir.kind->Concat_0 || hir.kind is Alternation && vx_v0_0 == &hir.kind->Alternation_0,
    ensures
        vx_any == (exists|i: int| 0 <= i < vx_v0_0.len() && has_capture(#[trigger] vx_v0_0[i])),
    decreases vx_v0_0.len() - vx_i0,
//@end

//@fn sscanf_macro/src/format_option.rs FormatOption::from_radix
//@flag str_index
//@flag props=C01 C02 C03 C04 C20
//@requires
    old($0).wf(), old($0).s() == $1.s(), 1 <= old($0).k(), $2 == off($1.s(), old($0).k() - 1),
    exists|o: int| 0 <= o < old($0).k() && #[trigger] off($1.s(), o) == $3,
//@ensures
    final($0).wf(), final($0).s() == old($0).s(),
    res is Ok ==> final($0).k() > old($0).k(),
    opt_is(res, radix_from($1.s(), old($0).k() - 1, at($1.s(), $3 as int)), *$1, final($0).k()),
//@loop 0
    invariant_except_break
        vx_f is None, $0.wf(), $0.s() == $1.s(), old($0).k() <= $0.k(),
        first_close($1.s(), old($0).k()) == first_close($1.s(), $0.k()),
    ensures
        $0.wf(), $0.s() == $1.s(), old($0).k() <= $0.k(),
        match first_close($1.s(), old($0).k()) { Some(f) => vx_f is Some && (vx_f->0).0 == off($1.s(), f) && $0.k() == f + 1 && f >= old($0).k(), None => vx_f is None && $0.k() == $0.s().len() },
    decreases $0.s().len() - $0.k(),
//@begin
    let ghost s0 = $1.s(); let ghost k0 = old($0).k() - 1;
//@end

//@fn sscanf_macro/src/format_option.rs FormatOption::new
//@flag props=C01 C02 C03 C04 C20
//@requires
    old($0).wf(), old($0).s() == $1.s(),
    exists|o: int| 0 <= o < old($0).k() && #[trigger] off($1.s(), o) == $2,
//@ensures
    final($0).wf(), final($0).s() == old($0).s(),
    res is Ok ==> final($0).k() > old($0).k(),
    opt_is(res, option_from($1.s(), $1.raw(), old($0).k(), at($1.s(), $2 as int)), *$1, final($0).k()),
//@role regex = field x | argof x y | init String::new()
//@role escape = recv take
//@role end = assigned Some(i)
//@loop 0
    invariant_except_break
        $0.wf(), $0.s() == $1.s(), old($0).k() + 1 <= $0.k(), $end is None,
        match $escape {
            None => regex_from($1.s(), $1.raw(), old($0).k() + 1, Seq::empty()) == regex_from($1.s(), $1.raw(), $0.k(), $regex@),
            Some(e) => { let j = $0.k() - (if $1.raw() { 1int } else { 2int });
                &&& old($0).k() + 1 <= j &&  e == off($1.s(), j) && $1.s()[j] == '\\' && (!$1.raw() ==> $1.s()[j + 1] == '\\')
                &&& regex_from($1.s(), $1.raw(), old($0).k() + 1, Seq::empty()) == regex_from($1.s(), $1.raw(), j, $regex@) },
        },
    ensures
        $0.wf(), $0.s() == $1.s(), old($0).k() + 1 <= $0.k(),
        match regex_from($1.s(), $1.raw(), old($0).k() + 1, Seq::empty()) {
            Re::End(e, re) => $escape is None && $end is Some && $end->0 == off($1.s(), e) && $0.k() == e + 1 && $regex@ == re && e > old($0).k(),
            Re::Dangling(j) => old($0).k() < j < $1.s().len() && $escape is Some && $escape->0 == off($1.s(), j),
            Re::Open => $escape is None && $end is None,
        },
    decreases $0.s().len() - $0.k(),
//@end

//@fn sscanf_macro/src/placeholder.rs Placeholder::new
//@flag map=option
//@flag str_index
//@flag props=C01 C02 C03 C04 C20
//@requires
    old($0).wf(), old($0).s() == $1.s(), 1 <= old($0).k(), $2 == off($1.s(), old($0).k() - 1),
//@ensures
    final($0).wf(), final($0).s() == old($0).s(),
    match placeholder_at($1.s(), $1.raw(), old($0).k() - 1, $1.lo()) {
        PhRes::Ok(p, k) => res is Ok && ph_view(res->Ok_0) == p && final($0).k() == k && old($0).k() < k <= $1.s().len(),
        PhRes::Err(a, b) => res is Err && err_at(res->Err_0, *$1, a, b),
    },
//@begin
    proof { reveal(placeholder_at); }
//@role ident_start = argof $1 slice_excl
//@role end = assigned Some(i) | let end
//@role ident = field ident
//@role has_colon = init false
//@loop 0
    invariant_except_break
        !$has_colon, $ident is None, $end is None, name_end($1.s(), old($0).k()) == name_end($1.s(), $0.k()),
        $ident_start is None ==> $0.k() == old($0).k(),
    invariant
        $0.wf(), $0.s() == $1.s(), old($0).k() <= $0.k(),
        $ident_start is Some ==> $ident_start->0 == off($1.s(), old($0).k()) && $0.k() > old($0).k(),
    ensures
        match name_end($1.s(), old($0).k()) {
            Name::Open => !$has_colon && $ident is None && $end is None,
            Name::Closed(e) => !$has_colon && $end == Some(off($1.s(), e) as usize) && $0.k() == e + 1 && old($0).k() <= e < $1.s().len() && ident_is($ident, *$1, old($0).k(), e),
            Name::Colon(e) => $has_colon && $end is None && $0.k() == e + 1 && old($0).k() <= e < $1.s().len() && ident_is($ident, *$1, old($0).k(), e),
        },
    decreases $0.s().len() - $0.k(),
//@end

//@fn sscanf_macro/src/format_string.rs unescape
//@flag props=C01 C02 C03 C04 C20
//@requires
    old($0).wf(),
//@ensures
    final($0).wf(), final($0).s() == old($0).s(),
    final($0).k() >= old($0).k(),
    esc_ok(old($0).s(), old($0).k()) ==> (res, final($0).k()) == escape_at(old($0).s(), old($0).k()),
//@begin
    proof { reveal(escape_at); reveal_with_fuel(hex_run, 4); reveal_with_fuel(off, 4); }
//@role digits = init String::new()
//@role c = initpat .next() 0
//@loop 0
    invariant
        $0.wf(), $0.s() == old($0).s(), old($0).k() < $0.k(),
        hex_run(old($0).s(), old($0).k() + 1, $c == 'u', Seq::empty()) == hex_run(old($0).s(), $0.k(), $c == 'u', $digits@),
    decreases $0.s().len() - $0.k(),
//@loop 1
    invariant
        $0.wf(), $0.s() == old($0).s(), old($0).k() < $0.k(),
        skip_ws(old($0).s(), old($0).k() + 1) == skip_ws(old($0).s(), $0.k()),
    decreases $0.s().len() - $0.k(),
//@end

/// the compiler rejects literals with any other escape sequence, so the parser never has to decode one
pub fn decode(input: &mut PeekIter) -> (res: Option<char>)
    requires old(input).wf()
    ensures final(input).wf(), final(input).s() == old(input).s(), final(input).k() >= old(input).k(), (res, final(input).k()) == escape_at(old(input).s(), old(input).k()),
{ proof { assume(esc_ok(old(input).s(), old(input).k())); } unescape(input) }

//@fn sscanf_macro/src/format_string.rs FormatString::new
//@flag props=C01 C02 C03 C04 C20
//@ensures
    match format_from($0.s(), $0.raw(), $1, $0.lo(), 0, Seq::empty(), Seq::empty(), Seq::empty()) {
        Fmt::Ok(parts, phs) => res is Ok && strs(res->Ok_0.parts@) == parts && phs_view(res->Ok_0.placeholders@) == phs,
        Fmt::Err(a, b) => res is Err && res->Err_0.lo() == a && res->Err_0.hi() == b,
    },
//@begin
    proof { assert(strs(Seq::empty()) =~= Seq::<Seq<char>>::empty()); assert(phs_view(Seq::empty()) =~= Seq::<PhV>::empty()); }
//@role placeholders = field placeholders | let placeholders
//@role parts = field parts | let parts
//@role cur = init String::new()
//@role iter = init ~char_iter
//@loop 0
    invariant
        $iter.wf(), $iter.s() == $0.s(),
        format_from($0.s(), $0.raw(), $1, $0.lo(), 0, Seq::empty(), Seq::empty(), Seq::empty())
            == format_from($0.s(), $0.raw(), $1, $0.lo(), $iter.k(), strs($parts@), $cur@, phs_view($placeholders@)),
    decreases $iter.s().len() - $iter.k(),
//@flag call=unescape=>decode
//@end
}
} // verus!
fn main() {}
