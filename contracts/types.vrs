//@include shims.vrs
//@include type_model.vrs
verus! {
pub mod code {
use super::*;
broadcast use printed_inj;
pub mod ty_check {
use super::*;
broadcast use printed_inj;
//@fn sscanf_macro/src/ty.rs ty_check::is_segment free
//@ensures
    res == ($0.ident.s() == $1@ && $0.arguments is None),
//@flag ident_eq
//@flag reveal_lits
//@flag rename_method=clone=>vx_clone
//@end
//@fn sscanf_macro/src/ty.rs ty_check::is_str_path free
//@ensures
    res == str_path(*$0),
//@flag quote_paths
//@loop 0
    invariant_except_break
        !among(vx_v0_0@, vx_i0 as int, tt), !vx_any,
    invariant
        vx_i0 <= vx_v0_0@.len(), forall|x: Seq<Tok>| #[trigger] among(vx_v0_0@, vx_v0_0@.len() as int, x) == is_six(x),
    ensures
        vx_any == among(vx_v0_0@, vx_v0_0@.len() as int, tt),
    decreases vx_v0_0@.len() - vx_i0,
//@loop_begin 0
    proof { if vx_v0_0@[vx_i0 as int]@ == tt { assert(among(vx_v0_0@, vx_i0 + 1, tt)); among_mono(vx_v0_0@, vx_i0 + 1, vx_v0_0@.len() as int, tt); } }
//@before_loop 0
    proof { reveal_with_fuel(among, 9); let v = vx_v0_0@;
        let a = six(0); let b = six(1); let c = six(2); let d = six(3); let e = six(4); let f = six(5);
        if v.len() > 0 { assert(v[0]@ =~= a || v[0]@ =~= b || v[0]@ =~= c || v[0]@ =~= d || v[0]@ =~= e || v[0]@ =~= f); }
        if v.len() > 1 { assert(v[1]@ =~= a || v[1]@ =~= b || v[1]@ =~= c || v[1]@ =~= d || v[1]@ =~= e || v[1]@ =~= f); }
        if v.len() > 2 { assert(v[2]@ =~= a || v[2]@ =~= b || v[2]@ =~= c || v[2]@ =~= d || v[2]@ =~= e || v[2]@ =~= f); }
        if v.len() > 3 { assert(v[3]@ =~= a || v[3]@ =~= b || v[3]@ =~= c || v[3]@ =~= d || v[3]@ =~= e || v[3]@ =~= f); }
        if v.len() > 4 { assert(v[4]@ =~= a || v[4]@ =~= b || v[4]@ =~= c || v[4]@ =~= d || v[4]@ =~= e || v[4]@ =~= f); }
        if v.len() > 5 { assert(v[5]@ =~= a || v[5]@ =~= b || v[5]@ =~= c || v[5]@ =~= d || v[5]@ =~= e || v[5]@ =~= f); }
        assert forall|x: Seq<Tok>| #[trigger] among(v, v.len() as int, x) == is_six(x) by { } }
//@begin
    let ghost tt = $0.toks();
    proof { str_toks(*$0); }
//@flag rename_method=clone=>vx_clone
//@end
//@fn sscanf_macro/src/ty.rs ty_check::get_str free
//@ensures
    res == str_type(*$0),
//@flag rename_method=clone=>vx_clone
//@end
//@fn sscanf_macro/src/ty.rs ty_check::get_cow_str_path::get_cow_segment as get_cow_segment free
//@ensures
    res == cow_seg($0@),
//@flag ident_eq
//@flag reveal_lits
//@flag rename_method=clone=>vx_clone
//@end
//@fn sscanf_macro/src/ty.rs ty_check::get_cow_str_path::get_module_segment as get_module_segment free
//@ensures
    res == cow_mod($0@),
//@flag ident_eq
//@flag reveal_lits
//@flag rename_method=clone=>vx_clone
//@end
//@fn sscanf_macro/src/ty.rs ty_check::get_cow_str_path::get_root_segment as get_root_segment free
//@ensures
    res == cow_root($0@),
//@flag ident_eq
//@flag reveal_lits
//@flag rename_method=clone=>vx_clone
//@end
//@fn sscanf_macro/src/ty.rs ty_check::get_cow_str_path free
//@ensures
    res == cow_path(*$0),
//@flag drop_alias
//@flag rename_method=clone=>vx_clone
//@end
//@fn sscanf_macro/src/ty.rs ty_check::get_cow_str free
//@ensures
    res == cow_type(*$0),
//@flag rename_method=clone=>vx_clone
//@end
}
//@fn sscanf_macro/src/ty.rs TypeKind::from_ty
//@ensures
    res == kind_of(*$0),
//@flag rename_method=clone=>vx_clone
//@end
//@fn sscanf_macro/src/ty.rs Type::from_ty
//@ensures
    res.kind == kind_of($0), res.ty == $0, res.source is External,
//@flag rename_method=clone=>vx_clone
//@end
//@fn sscanf_macro/src/ty.rs Parse@Type::parse as parse
//@ensures
    own_type(old($0)@, res, final($0)@),
//@flag type=ParseStream=>&mut ParseBuffer
//@flag type=syn::Result<Self>=>Result<Self>
//@flag err_suffix
//@flag rename_method=into=>into_type
//@flag rename_method=clone=>vx_clone
//@end
//@fn sscanf_macro/src/ty.rs Type::from_str
//@ensures
    match lexed($0.s()) { None => res is Err, Some(t) => match own_whole(t) { None => res is Err, Some(ty) => res is Ok && (res->Ok_0).ty == ty && (res->Ok_0).kind == kind_of(ty) && (res->Ok_0).source == TypeSource::Format($0) } },
//@flag type=syn::Result<Self>=>Result<Self>
//@flag err_suffix
//@flag rename_method=clone=>vx_clone
//@end
}
}
fn main() {}
