// From one placeholder (variant) to any number of them.
//
// The macros paste the code of the placeholders, their regex texts and their numbers of captures one after the other
// (unit `macros`, `derive`: in which order, and that nothing else is pasted there). The emitted programs with one placeholder
// show what that code does at each of the three places; here is the step to n of them: expressions that are
// evaluated in order, each leaving the function with its error, behave like one placeholder with the sum of the captures.
verus! {
pub mod compose {
use super::*;
/// the code emitted for a placeholder; its contract is what every emitted placeholder is proved to keep
#[verifier::external_body] pub struct Snip { x: usize }
#[verifier::external_body] pub struct Val { x: usize }
impl Snip {
    pub uninterp spec fn n(&self) -> int;
    pub uninterp spec fn text(&self) -> Seq<Sym>;
    pub uninterp spec fn shape(&self, g: Seq<Grp>) -> bool;
    pub uninterp spec fn conv(&self, g: Seq<Grp>) -> Result<Val, ErrV>;
    #[verifier::external_body] pub fn num_captures(&self) -> (r: usize) ensures r == self.n(), 1 <= r <= 0xffff, r == 1 + caps(self.text(), 0) { unimplemented!() }
    #[verifier::external_body] pub fn regex(&self) -> (r: Rx) ensures r@ == self.text() { unimplemented!() }
    #[verifier::external_body] pub fn eval<'t>(&self, src: &mut SubCaptureMatches<'_, 't>) -> (res: Result<Val, DynErr>)
        requires old(src).wf(), old(src).k() + self.n() <= old(src).g().len(), self.shape(old(src).g().subrange(old(src).k(), old(src).k() + self.n())),
        ensures final(src).wf(), final(src).g() == old(src).g(),
            match self.conv(old(src).g().subrange(old(src).k(), old(src).k() + self.n())) {
                Ok(v) => res is Ok && res->Ok_0 == v && final(src).k() == old(src).k() + self.n(),
                Err(e) => res is Err && res->Err_0.ev() == e,
            }
    { unimplemented!() }
}
/// captures of the first i placeholders
pub open spec fn total(ms: Seq<Snip>, i: int) -> int decreases i { if i <= 0 { 0 } else { total(ms, i - 1) + ms[i - 1].n() } }
/// the groups of placeholder i, when those of all begin at o
pub open spec fn own(ms: Seq<Snip>, i: int, g: Seq<Grp>, o: int) -> Seq<Grp> { g.subrange(o + total(ms, i), o + total(ms, i) + ms[i].n()) }
/// the error of the first conversion, among the first i, that fails
pub open spec fn first_err(ms: Seq<Snip>, i: int, g: Seq<Grp>, o: int) -> Option<ErrV> decreases i {
    if i <= 0 { None } else { match first_err(ms, i - 1, g, o) { Some(e) => Some(e), None => match ms[i - 1].conv(own(ms, i - 1, g, o)) { Ok(_) => None, Err(e) => Some(e) } } }
}
pub open spec fn sizes(ms: Seq<Snip>) -> bool { forall|i: int| 0 <= i < ms.len() ==> 0 <= (#[trigger] ms[i]).n() <= 0xffff }
pub proof fn total_mono(ms: Seq<Snip>, i: int, j: int) requires sizes(ms), 0 <= i <= j <= ms.len() ensures 0 <= total(ms, i) <= total(ms, j) decreases j
{ if i < j { total_mono(ms, i, j - 1); } else if j > 0 { total_mono(ms, i - 1, j - 1); } }
pub proof fn err_kept(ms: Seq<Snip>, i: int, j: int, g: Seq<Grp>, o: int) requires 0 <= i <= j, first_err(ms, i, g, o) is Some ensures first_err(ms, j, g, o) == first_err(ms, i, g, o) decreases j
{ if i < j { err_kept(ms, i, j - 1, g, o); } }

/// `(#(#matcher),*)`: the expressions in order, the first error leaves
pub fn eval_all<'t>(ms: &Vec<Snip>, src: &mut SubCaptureMatches<'_, 't>) -> (res: Result<Vec<Val>, DynErr>)
    requires old(src).wf(), sizes(ms@), old(src).k() + total(ms@, ms@.len() as int) <= old(src).g().len(),
        forall|i: int| 0 <= i < ms@.len() ==> (#[trigger] ms@[i]).shape(own(ms@, i, old(src).g(), old(src).k())),
    ensures final(src).wf(), final(src).g() == old(src).g(),
        match first_err(ms@, ms@.len() as int, old(src).g(), old(src).k()) {
            Some(e) => res is Err && res->Err_0.ev() == e,
            None => res is Ok && res->Ok_0@.len() == ms@.len() && final(src).k() == old(src).k() + total(ms@, ms@.len() as int)
                && forall|i: int| 0 <= i < ms@.len() ==> ms@[i].conv(own(ms@, i, old(src).g(), old(src).k())) == Ok::<Val, ErrV>(#[trigger] res->Ok_0@[i]), // [C09 C10 C11 C14]
        }
{
    let ghost g = src.g(); let ghost o = src.k();
    let mut vs: Vec<Val> = Vec::new();
    let mut i: usize = 0;
    while i < ms.len()
        invariant i <= ms@.len(), vs@.len() == i, sizes(ms@), src.wf(), src.g() == g, src.k() == o + total(ms@, i as int), 0 <= o, o + total(ms@, ms@.len() as int) <= g.len(),
            g == old(src).g(), o == old(src).k(),
            first_err(ms@, i as int, g, o) is None,
            forall|j: int| 0 <= j < ms@.len() ==> (#[trigger] ms@[j]).shape(own(ms@, j, g, o)),
            forall|j: int| 0 <= j < i ==> ms@[j].conv(own(ms@, j, g, o)) == Ok::<Val, ErrV>(#[trigger] vs@[j]),
        decreases ms@.len() - i
    {
        proof { total_mono(ms@, i as int + 1, ms@.len() as int); total_mono(ms@, 0, i as int); assert(ms@[i as int].shape(own(ms@, i as int, g, o))); }
        match ms[i].eval(src) {
            Ok(v) => { vs.push(v); }
            Err(e) => { proof { err_kept(ms@, i as int + 1, ms@.len() as int, g, o); } return Err(e); }
        }
        i += 1;
    }
    Ok(vs)
}
/// `#(#num_captures)+*`
pub fn count_all(ms: &Vec<Snip>) -> (r: usize)
    requires sizes(ms@), ms@.len() <= 0xffff
    ensures r == total(ms@, ms@.len() as int), r <= 0xffff * 0xffff
{
    let mut r: usize = 0; let mut i: usize = 0;
    while i < ms.len() invariant i <= ms@.len(), ms@.len() <= 0xffff, sizes(ms@), r == total(ms@, i as int), r <= i * 0xffff decreases ms@.len() - i
    { let n = ms[i].num_captures(); assert(n == ms@[i as int].n()); assert((i + 1) * 0xffff == i * 0xffff + 0xffff) by (nonlinear_arith); r += n; i += 1; }
    r
}

// ---------------------------------------------------------------- the number of groups of the whole text
/// ends outside an escape sequence
pub open spec fn whole(s: Seq<Sym>, i: int) -> bool decreases s.len() + 1 - i { if i < 0 { false } else if i >= s.len() { i == s.len() } else if s[i] == Sym::C('\\') { whole(s, i + 2) } else { whole(s, i + 1) } }
pub open spec fn joins(a: Seq<Sym>, b: Seq<Sym>) -> bool { b.len() > 0 ==> b[0] != Sym::C('?') }
pub proof fn caps_add(a: Seq<Sym>, b: Seq<Sym>, i: int) requires 0 <= i <= a.len() + 1, whole(a, i), joins(a, b)
    ensures i <= a.len(), caps(a + b, i) == caps(a, i) + caps(b, 0), whole(a + b, i) == whole(b, 0) decreases a.len() + 1 - i
{
    let s = a + b;
    if i >= a.len() { shift(a, b, i); }
    else {
        assert(s[i] == a[i]);
        match a[i] {
            Sym::T(_) => { caps_add(a, b, i + 1); }
            Sym::C(c) => {
                if c == '\\' { caps_add(a, b, i + 2); }
                else {
                    caps_add(a, b, i + 1);
                    if i + 1 < a.len() { assert(s[i + 1] == a[i + 1]); } else if b.len() > 0 { assert(s[i + 1] == b[0]); }
                }
            }
        }
    }
}
pub proof fn shift(a: Seq<Sym>, b: Seq<Sym>, i: int) requires i >= a.len() ensures caps(a + b, i) == caps(b, i - a.len()), whole(a + b, i) == whole(b, i - a.len()) decreases a.len() + b.len() + 1 - i
{ let s = a + b; if i < s.len() { assert(s[i] == b[i - a.len()]); if i + 1 < s.len() { assert(s[i + 1] == b[i + 1 - a.len()]); } shift(a, b, i + 1); shift(a, b, i + 2); } }

/// a literal part: whole, as many groups of its own as it opens for the placeholder behind it
pub open spec fn part(s: Seq<Sym>, opens: int) -> bool { whole(s, 0) && caps(s, 0) == opens && (s.len() > 0 ==> s[0] != Sym::C('?')) }
/// `concatcp!(#(#part),*)`: part 0, placeholder 0, part 1, .. up to before part i
pub open spec fn regex(ls: Seq<Seq<Sym>>, ms: Seq<Snip>, i: int) -> Seq<Sym> decreases i { if i <= 0 { Seq::empty() } else { regex(ls, ms, i - 1) + ls[i - 1] + ms[i - 1].text() } }
pub open spec fn texts(ls: Seq<Seq<Sym>>, ms: Seq<Snip>) -> bool {
    ls.len() == ms.len() + 1 && (forall|i: int| 0 <= i < ms.len() ==> part(#[trigger] ls[i], 1)) && part(ls.last(), 0)
    && forall|i: int| 0 <= i < ms.len() ==> whole((#[trigger] ms[i]).text(), 0) && (ms[i].text().len() > 0 ==> ms[i].text()[0] != Sym::C('?')) && ms[i].n() == 1 + caps(ms[i].text(), 0)
}
pub proof fn caps_upto(ls: Seq<Seq<Sym>>, ms: Seq<Snip>, i: int) requires texts(ls, ms), 0 <= i <= ms.len()
    ensures whole(regex(ls, ms, i), 0), caps(regex(ls, ms, i), 0) == total(ms, i) decreases i
{
    if i > 0 {
        caps_upto(ls, ms, i - 1);
        let a = regex(ls, ms, i - 1); let l = ls[i - 1]; let t = ms[i - 1].text();
        assert(part(ls[i - 1], 1)); assert(whole(ms[i - 1].text(), 0));
        caps_add(a, l, 0);
        caps_add(a + l, t, 0);
    }
}
/// literal text as the macros write it: what is special in a regex behind a backslash (the brackets and the backslash are)
pub open spec fn escaped(s: Seq<char>, meta: spec_fn(char) -> bool) -> Seq<Sym> decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { escaped(s.drop_last(), meta) + (if meta(s.last()) { seq![Sym::C('\\'), Sym::C(s.last())] } else { seq![Sym::C(s.last())] }) } }
pub proof fn escaped_part(s: Seq<char>, meta: spec_fn(char) -> bool) requires meta('('), meta('\\'), meta('?') ensures part(escaped(s, meta), 0) decreases s.len()
{
    if s.len() > 0 {
        let c = s.last(); let a = escaped(s.drop_last(), meta); let b = if meta(c) { seq![Sym::C('\\'), Sym::C(c)] } else { seq![Sym::C(c)] };
        escaped_part(s.drop_last(), meta);
        reveal_with_fuel(caps, 4); reveal_with_fuel(whole, 4);
        caps_add(a, b, 0);
    }
}
/// between two placeholders, before the first and behind the last one: the parts of every escaped format keep what `texts` asks of them
pub proof fn escaped_parts(s: Seq<char>, meta: spec_fn(char) -> bool) requires meta('('), meta('\\'), meta('?')
    ensures part(seq![Sym::C(')')] + escaped(s, meta) + seq![Sym::C('(')], 1), part(seq![Sym::C('^')] + escaped(s, meta) + seq![Sym::C('(')], 1), part(escaped(s, meta) + seq![Sym::C('(')], 1), // [C11]
        part(seq![Sym::C(')')] + escaped(s, meta), 0), part(seq![Sym::C(')')] + escaped(s, meta) + seq![Sym::C('$')], 0), // [C11]
{
    let e = escaped(s, meta); let o = seq![Sym::C('(')]; let c = seq![Sym::C(')')]; let u = seq![Sym::C('^')]; let d = seq![Sym::C('$')];
    escaped_part(s, meta);
    reveal_with_fuel(caps, 4); reveal_with_fuel(whole, 4);
    caps_add(c, e, 0); caps_add(c + e, o, 0); caps_add(u, e, 0); caps_add(u + e, o, 0); caps_add(e, o, 0); caps_add(c + e, d, 0);
}
/// the parts around the variants of an enum
pub proof fn enum_parts() ensures part(seq![Sym::C('('), Sym::C('?'), Sym::C(':'), Sym::C('(')], 1), part(seq![Sym::C(')'), Sym::C('|'), Sym::C('(')], 1), part(seq![Sym::C(')'), Sym::C(')')], 0) // [C11]
{ reveal_with_fuel(caps, 6); reveal_with_fuel(whole, 6); }
/// the whole regex has one group per placeholder and those inside: 1 + captures_len() is what the emitted code declares
pub proof fn caps_all(ls: Seq<Seq<Sym>>, ms: Seq<Snip>) requires texts(ls, ms)
    ensures caps(regex(ls, ms, ms.len() as int) + ls.last(), 0) == total(ms, ms.len() as int) // [C11]
{ let a = regex(ls, ms, ms.len() as int); caps_upto(ls, ms, ms.len() as int); caps_add(a, ls.last(), 0); }
/// `concatcp!(#(#part),*)`
pub fn regex_all(ls: &Vec<Rx>, ms: &Vec<Snip>) -> (r: Rx)
    requires texts(syms(ls@), ms@)
    ensures r@ == regex(syms(ls@), ms@, ms@.len() as int) + syms(ls@).last()
{
    let mut r = Rx::empty(); let mut i: usize = 0;
    while i < ms.len() invariant i <= ms@.len(), ls@.len() == ms@.len() + 1, r@ == regex(syms(ls@), ms@, i as int) decreases ms@.len() - i
    {
        let ghost r0 = r@;
        let l = ls[i].copy(); let t = ms[i].regex();
        r.push(l); r.push(t);
        assert(r@ =~= r0 + syms(ls@)[i as int] + ms@[i as int].text());
        i += 1;
    }
    let l = ls[i].copy();
    let ghost r0 = r@;
    r.push(l);
    assert(r@ =~= r0 + syms(ls@).last());
    r
}
pub open spec fn syms(ls: Seq<Rx>) -> Seq<Seq<Sym>> { ls.map_values(|r: Rx| r@) }

/// a call of the macro with any number of placeholders: its literal parts and its placeholders, as `macros` proves that they are pasted
#[verifier::external_body] pub fn literals() -> (r: Vec<Rx>) ensures syms(r@) == lits() { unimplemented!() }
#[verifier::external_body] pub fn placeholders() -> (r: Vec<Snip>) ensures r@ == prog(), r@.len() <= 0xffff { unimplemented!() }
pub uninterp spec fn lits() -> Seq<Seq<Sym>>;
pub uninterp spec fn prog() -> Seq<Snip>;
/// what is trusted of them (proved of each literal part and placeholder in its own unit)
#[verifier::external_body] pub proof fn prog_ok() ensures sizes(prog()), texts(lits(), prog()) {}
pub proof fn total_pos() ensures total(prog(), np()) >= 0 { prog_ok(); total_mono(prog(), 0, np()); }
pub open spec fn np() -> int { prog().len() as int }
pub open spec fn rx() -> Seq<Sym> { regex(lits(), prog(), np()) + lits().last() }
pub open spec fn shapes(g: Seq<Grp>, o: int) -> bool { forall|i: int| 0 <= i < np() ==> (#[trigger] prog()[i]).shape(own(prog(), i, g, o)) }
pub open spec fn err(g: Seq<Grp>, o: int) -> Option<ErrV> { first_err(prog(), np(), g, o) }
pub open spec fn values(vs: Seq<Val>, g: Seq<Grp>, o: int) -> bool { vs.len() == np() && forall|i: int| 0 <= i < np() ==> prog()[i].conv(own(prog(), i, g, o)) == Ok::<Val, ErrV>(#[trigger] vs[i]) }
/// trusted: which groups a match of this regex can report
#[verifier::external_body] pub broadcast proof fn legal_all(g: Seq<Grp>) requires #[trigger] legal(rx(), g) ensures g.len() == 1 + total(prog(), np()), g[0] is Some, shapes(g, 1) {}
/// stands at the three places of an emitted program where the code of all placeholders is pasted
pub fn vx_regex() -> (r: Rx) ensures r@ == rx(), caps(r@, 0) == total(prog(), np()) { let ls = literals(); let ms = placeholders(); proof { prog_ok(); caps_all(lits(), prog()); } regex_all(&ls, &ms) }
pub fn vx_count() -> (r: usize) ensures r == total(prog(), np()), r <= 0xffff * 0xffff { let ms = placeholders(); proof { prog_ok(); } count_all(&ms) }
pub fn vx_eval<'t>(src: &mut SubCaptureMatches<'_, 't>) -> (res: Result<Vec<Val>, DynErr>)
        requires old(src).wf(), old(src).k() + total(prog(), np()) <= old(src).g().len(), shapes(old(src).g(), old(src).k()),
        ensures final(src).wf(), final(src).g() == old(src).g(),
            match err(old(src).g(), old(src).k()) { Some(e) => res is Err && res->Err_0.ev() == e, None => res is Ok && values(res->Ok_0@, old(src).g(), old(src).k()) && final(src).k() == old(src).k() + total(prog(), np()) }
    { let ms = placeholders(); proof { prog_ok(); } eval_all(&ms, src) }
/// values of fields without a placeholder; they come last
#[verifier::external_body] pub fn vx_defaults() -> (r: Vec<Val>) ensures r@ == dflts() { unimplemented!() }
pub uninterp spec fn dflts() -> Seq<Val>;

// ---------------------------------------------------------------- variants
/// marks the place behind the code of a variant that did not take part
pub uninterp spec fn fell() -> ErrV;
#[verifier::external_body] pub fn vx_fell() -> (r: DynErr) ensures r.ev() == fell() { unimplemented!() }
impl Snip {
    /// the code emitted for a variant (what `e_seg` proves of it)
    #[verifier::external_body] pub fn variant<'t>(&self, src: &mut SubCaptureMatches<'_, 't>, remaining: &mut usize) -> (res: Option<Result<Val, DynErr>>)
        requires old(src).wf(), self.n() >= 1, old(src).k() + self.n() <= old(src).g().len(), *old(remaining) >= self.n(),
            old(src).g()[old(src).k()] is Some ==> self.shape(old(src).g().subrange(old(src).k(), old(src).k() + self.n())),
        ensures final(src).wf(), final(src).g() == old(src).g(), *final(remaining) == *old(remaining) - self.n(),
            old(src).g()[old(src).k()] is None ==> res is None && final(src).k() == old(src).k() + self.n(),
            old(src).g()[old(src).k()] is Some ==> match self.conv(old(src).g().subrange(old(src).k(), old(src).k() + self.n())) {
                Ok(v) => res is Some && res->0 is Ok && (res->0)->Ok_0 == v && final(src).k() == old(src).k() + self.n(),
                Err(e) => res is Some && res->0 is Err && (res->0)->Err_0.ev() == e,
            }
    { unimplemented!() }
}
/// variant w is the one whose group took part
pub open spec fn won(ms: Seq<Snip>, g: Seq<Grp>, o: int, w: int) -> bool {
    0 <= w < ms.len() && g[o + total(ms, w)] is Some && ms[w].shape(own(ms, w, g, o)) && forall|j: int| 0 <= j < ms.len() && j != w ==> g[o + #[trigger] total(ms, j)] is None
}
/// `#(#variant_constructors)*`
pub fn variants_all<'t>(ms: &Vec<Snip>, src: &mut SubCaptureMatches<'_, 't>, remaining: &mut usize) -> (res: Option<Result<Val, DynErr>>)
    requires old(src).wf(), sizes(ms@), forall|i: int| 0 <= i < ms@.len() ==> (#[trigger] ms@[i]).n() >= 1, old(src).k() + total(ms@, ms@.len() as int) <= old(src).g().len(), *old(remaining) == total(ms@, ms@.len() as int),
        exists|w: int| won(ms@, old(src).g(), old(src).k(), w),
    ensures final(src).wf(), final(src).g() == old(src).g(),
        forall|w: int| #[trigger] won(ms@, old(src).g(), old(src).k(), w) ==> match ms@[w].conv(own(ms@, w, old(src).g(), old(src).k())) {
            Ok(v) => res is Some && res->0 is Ok && (res->0)->Ok_0 == v && final(src).k() + *final(remaining) == old(src).k() + *old(remaining), // [C11 C12 C14]
            Err(e) => res is Some && res->0 is Err && (res->0)->Err_0.ev() == e, // [C14 C12]
        }
{
    let ghost g = src.g(); let ghost o = src.k(); let ghost win = choose|w: int| won(ms@, g, o, w);
    let mut i: usize = 0;
    while i < ms.len()
        invariant i <= ms@.len(), sizes(ms@), forall|i: int| 0 <= i < ms@.len() ==> (#[trigger] ms@[i]).n() >= 1, src.wf(), src.g() == g, src.k() == o + total(ms@, i as int), 0 <= o, o + total(ms@, ms@.len() as int) <= g.len(),
            g == old(src).g(), o == old(src).k(), *remaining == total(ms@, ms@.len() as int) - total(ms@, i as int), *old(remaining) == total(ms@, ms@.len() as int),
            won(ms@, g, o, win), win >= i,
        decreases ms@.len() - i
    {
        proof {
            total_mono(ms@, i as int + 1, ms@.len() as int); total_mono(ms@, 0, i as int);
            assert(ms@[i as int].n() >= 1);
            assert(i as int != win ==> g[o + total(ms@, i as int)] is None);
            assert forall|w: int| #[trigger] won(ms@, g, o, w) implies w == win by { assert(w != win ==> g[o + total(ms@, w)] is None); }
        }
        if let Some(r) = ms[i].variant(src, remaining) { return Some(r); }
        i += 1;
    }
    None
}
/// an enum: its variants, one group each (the literal parts are `(?:(`, `)|(` and `))`)
pub fn vx_variants<'t>(src: &mut SubCaptureMatches<'_, 't>, remaining: &mut usize) -> (res: Option<Result<Val, DynErr>>)
    requires old(src).wf(), variants(), old(src).k() + total(prog(), np()) <= old(src).g().len(), *old(remaining) == total(prog(), np()), exists|w: int| won(prog(), old(src).g(), old(src).k(), w),
    ensures final(src).wf(), final(src).g() == old(src).g(),
        forall|w: int| #[trigger] won(prog(), old(src).g(), old(src).k(), w) ==> match prog()[w].conv(own(prog(), w, old(src).g(), old(src).k())) {
            Ok(v) => res is Some && res->0 is Ok && (res->0)->Ok_0 == v && final(src).k() + *final(remaining) == old(src).k() + *old(remaining),
            Err(e) => res is Some && res->0 is Err && (res->0)->Err_0.ev() == e,
        }
{ let ms = placeholders(); proof { prog_ok(); } variants_all(&ms, src, remaining) }
/// the placeholders of `prog` are variants: each has at least its own group
pub open spec fn variants() -> bool { forall|i: int| 0 <= i < np() ==> (#[trigger] prog()[i]).n() >= 1 }
} // compose
} // verus!
