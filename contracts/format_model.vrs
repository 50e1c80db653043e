// Placeholder, FormatOption and FormatString as values of the specification.
verus! {
pub type Result<T, E = Error> = std::result::Result<T, E>;
//@item sscanf_macro/src/format_option.rs enum FormatOptionKind
#[derive(Clone, Copy)]
//@item sscanf_macro/src/format_option.rs enum PrefixPolicy
#[derive(Clone, Copy)]
//@item sscanf_macro/src/format_option.rs enum PrefixKind
//@item sscanf_macro/src/format_option.rs struct FormatOption
//@item sscanf_macro/src/placeholder.rs struct Placeholder
//@item sscanf_macro/src/format_string.rs struct FormatString

pub open spec fn kind_view(k: FormatOptionKind) -> OptV { match k { FormatOptionKind::Radix { radix, prefix } => OptV::Radix(radix as int, prefix), FormatOptionKind::Regex(r) => OptV::Regex(r@), FormatOptionKind::Hashtag => OptV::Hashtag } }
pub open spec fn cfg_view(c: FormatOption) -> CfgV { CfgV { kind: kind_view(c.kind), lo: c.src.lo(), hi: c.src.hi() } }
pub open spec fn ph_view(p: Placeholder) -> PhV { PhV { lo: p.src.lo(), hi: p.src.hi(),
    ident: match p.ident { Some(i) => Some((i.lo(), i.hi(), i.s())), None => None },
    cfg: match p.config { Some(c) => Some(cfg_view(c)), None => None } } }
pub open spec fn phs_view(v: Seq<Placeholder>) -> Seq<PhV> { Seq::new(v.len(), |i: int| ph_view(v[i])) }
pub broadcast proof fn phs_push(v: Seq<Placeholder>, p: Placeholder) ensures #[trigger] phs_view(v.push(p)) == phs_view(v).push(ph_view(p)) { assert(phs_view(v.push(p)) =~= phs_view(v).push(ph_view(p))); }
pub open spec fn strs(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub broadcast proof fn strs_push(v: Seq<String>, p: String) ensures #[trigger] strs(v.push(p)) == strs(v).push(p@) { assert(strs(v.push(p)) =~= strs(v).push(p@)); }


pub open spec fn opt_is(r: Result<(FormatOption, usize)>, o: OptRes, src: StrLitSlice, k: int) -> bool {
    match o {
        OptRes::Ok(kind, a, b, close) => r is Ok && kind_view((r->Ok_0).0.kind) == kind && (r->Ok_0).0.src.lo() == src.lo() + off(src.s(), a) && (r->Ok_0).0.src.hi() == src.lo() + off(src.s(), b) && (r->Ok_0).1 == off(src.s(), close) && k == close + 1 && 0 <= close < src.s().len(),
        OptRes::Err(a, b) => r is Err && err_at(r->Err_0, src, a, b),
    }
}
pub open spec fn err_at(e: Error, src: StrLitSlice, a: int, b: int) -> bool { e.lo() == src.lo() + off(src.s(), a) && e.hi() == src.lo() + off(src.s(), b) }

pub open spec fn ident_is(i: Option<StrLitSlice>, src: StrLitSlice, k: int, e: int) -> bool {
    if e > k { i is Some && i->0.lo() == src.lo() + off(src.s(), k) && i->0.hi() == src.lo() + off(src.s(), e) && i->0.s() == src.s().subrange(k, e) } else { i is None }
}
} // verus!
