"""Proof units over the code the macros emit.

A unit is a list of cases: a program (macro call or derive input) together with what the documentation
says it means (one source per placeholder or field). From the meaning alone the contract of the emitted
functions is written; the macros are run on the program (rs/hunter, `hunter emit`), and the emitted
functions are verified against the contract for every input.
"""
import json, os, random, re, subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
META = set('\\.+*?()|[]{}^$#&-~')
def esc(s): return ''.join('\\' + c if c in META else c for c in s)
def rq(s): return json.dumps(s, ensure_ascii=False)
def chlit(c): return {"'": "'\\''", '\\': "'\\\\'", '\n': "'\\n'", '\t': "'\\t'"}.get(c, "'%s'" % c)
def syms(parts):
    """parts: regex texts and ('T', type) -> Verus sequence"""
    o = []
    for p in parts:
        if isinstance(p, tuple): o.append(f'Sym::T({tid(p[1])})')
        else: o += [f'Sym::C({chlit(c)})' for c in p]
    return 'Seq::<Sym>::empty()' + ''.join(f'.push({x})' for x in o), len(o)

STR, COW = 'str', 'Cow<str>'
def capsum(parts):
    """number of groups, for the proof (checked by the verifier)"""
    t = ''.join('T' if isinstance(p, tuple) else p for p in parts)
    k, i = 0, 0
    while i < len(t):
        if t[i] == '\\': i += 2; continue
        if t[i] == '(' and t[i + 1:i + 2] != '?': k += 1
        i += 1
    return ' + '.join([f'{k}int'] + [f'groups_of({tid(p[1])})' for p in parts if isinstance(p, tuple)])
def is_str(t): return t in (STR, COW) or t.endswith(' str') and t.startswith('&')
def tid(t): return '<str as RegexRepresentation>::tid()' if t in (STR, COW) or t.startswith('&') else f'<{t} as RegexRepresentation>::tid()'
def n_of(t): return '1' if is_str(t) or t == COW else f'{t}::n()'
def sub(base, t, off): return f'{base}.subrange({off}, {off} + {n_of(t)})'

class Src:
    """where one value comes from: kind in T, str, cow, dflt, expr, map, fmap, from, tryfrom, radix"""
    def __init__(self, kind, ty, to=None, cfg=None): self.kind, self.ty, self.to, self.cfg = kind, ty, to, cfg
    def placeholder(self): return self.kind not in ('dflt', 'expr')
    def groups_ty(self): return STR if self.kind in ('str', 'cow') else self.ty
    # shape of its groups at offset o of g
    def shape(self, g, o):
        if self.kind in ('str', 'cow'): return f'{g}[{o}] is Some'
        return f'{self.ty}::shape({sub(g, self.ty, o)})' + (f' && {self.cfg.pre(g, o)}' if self.cfg else '')
    def leaf(self, g, o): return f'{self.ty}::conv({sub(g, self.ty, o)})'
    def err(self, g, o):
        """Option<ErrV>"""
        if self.kind in ('str', 'cow', 'dflt', 'expr'): return 'None::<ErrV>'
        if self.kind == 'radix': return self.cfg.err(g, o)
        l = self.leaf(g, o)
        if self.kind in ('T', 'map', 'from'): return f'(match {l} {{ Ok(_) => None::<ErrV>, Err(e) => Some(e) }})'
        if self.kind == 'fmap': return f'(match {l} {{ Ok(x) => if fmap_{self.ty}_{self.to}_s(x) is Some {{ None::<ErrV> }} else {{ Some(ErrV::FilterNone({rq(self.name)}@)) }}, Err(e) => Some(e) }})'
        if self.kind == 'tryfrom': return f'(match {l} {{ Ok(x) => match <{self.to} as TryFrom<{self.ty}>>::tfrm(x) {{ Ok(_) => None::<ErrV>, Err(e) => Some(e) }}, Err(e) => Some(e) }})'
    def ok(self, v, g, o):
        if self.kind == 'str': return f'is_str({v}, {g}[{o}]->0)'
        if self.kind == 'cow': return f'({v} is Borrowed && is_str({v}->Borrowed_0, {g}[{o}]->0))'
        if self.kind == 'dflt': return f'{v} == <{self.ty} as Default>::dflt()'
        if self.kind == 'expr': return f'{v} == dv_{self.ty}_s()'
        if self.kind == 'radix': return self.cfg.ok(v, g, o)
        x = f'{self.leaf(g, o)}->Ok_0'
        if self.kind == 'T': return f'{v} == {x}'
        if self.kind == 'map': return f'{v} == map_{self.ty}_{self.to}_s({x})'
        if self.kind == 'from': return f'{v} == <{self.to} as From<{self.ty}>>::frm({x})'
        if self.kind == 'fmap': return f'Some({v}) == fmap_{self.ty}_{self.to}_s({x})'
        if self.kind == 'tryfrom': return f'Ok::<{self.to}, ErrV>({v}) == <{self.to} as TryFrom<{self.ty}>>::tfrm({x})'

def offsets(types, start='1int'):
    o, r = start, []
    for t in types: r.append(o); o = f'{o} + {n_of(t)}'
    return r, o

def err_chain(srcs, g, offs):
    e = 'None::<ErrV>'
    for s, o in reversed(list(zip(srcs, offs))):
        x = s.err(g, o)
        if x == 'None::<ErrV>': continue
        e = f'(match {x} {{ Some(e) => Some(e), None => {e} }})'
    return e

def legal_ax(name, cond): return f'''
/// trusted: which groups a match of this regex can report
#[verifier::external_body] pub broadcast proof fn legal_ax(g: Seq<Grp>) requires #[trigger] legal(rx(), g) ensures {cond} {{}}'''

class SscanfCase:
    """lits: n+1 literal texts; srcs: n sources (placeholder order); program: macro arguments; kind: sscanf | unescaped | get_regex"""
    def __init__(self, name, program, lits, srcs, kind='sscanf', escape=True, regexes=None, props='C09 C11 C14'):
        self.name, self.program, self.lits, self.srcs, self.kind, self.escape, self.regexes, self.props = name, program, lits, srcs, kind, escape, regexes or [None] * len(srcs), props
        self.types = [s.groups_ty() for s in srcs]
    def jobs(self): return [dict(name=self.name, kind=self.kind, text=('' if self.kind == 'get_regex' else 'input, ') + self.program)]
    def shown(self): return {'sscanf': 'sscanf', 'unescaped': 'sscanf_unescaped', 'get_regex': 'sscanf_get_regex'}[self.kind] + '!(' + self.jobs()[0]['text'] + ')'
    def val_ty(self, s): return {'str': "&'t str", 'cow': "Cow<'t>"}.get(s.kind, s.ty)
    def ret(self):
        v = [self.val_ty(s) for s in self.srcs]
        return v[0] if len(v) == 1 else '(' + ', '.join(v) + ')'
    def code(self, out):
        if self.kind == 'get_regex': return f"pub mod {self.name} {{ pub fn emitted() -> Regex {out} }}\n"
        return f"pub mod {self.name} {{ pub fn emitted<'t>(input: &'t str) -> Result<{self.ret()}, crate::sscanf::Error> {out} }}\n"
    def regex_parts(self):
        parts = ['^']
        for k, l in enumerate(self.lits):
            parts[-1:] = [parts[-1] + (esc(l) if self.escape else l)] if isinstance(parts[-1], str) else [parts[-1], (esc(l) if self.escape else l)]
            if k < len(self.srcs):
                parts[-1] += '('
                rg = self.regexes[k]
                if self.srcs[k].cfg: parts[-1] += self.srcs[k].cfg.regex + ')'
                elif rg is None: parts += [('T', self.srcs[k].groups_ty()), ')']
                else: parts[-1] += rg + ')'
        parts[-1] += '$'
        return parts
    def template(self):
        parts = self.regex_parts()
        rx, ln = syms(parts)
        offs, end = offsets(self.types)
        vals = ['v'] if len(self.srcs) == 1 else [f'v.{k}' for k in range(len(self.srcs))]
        shape = ' && '.join([f'g.len() == {end}', 'g[0] is Some'] + [s.shape('g', o) for s, o in zip(self.srcs, offs)])
        ok = ' && '.join([s.ok(v, 'g', o) for s, v, o in zip(self.srcs, vals, offs)] or ['true'])
        if self.kind == 'get_regex': return f'''
pub mod {self.name} {{
use super::*;
pub open spec fn rx() -> Seq<Sym> {{ {rx} }}
pub proof fn caps_eq() ensures caps(rx(), 0) == {end} - 1 {{ assert(caps(rx(), 0) == {capsum(parts)}) by (compute); tids(); }}
pub mod code {{
use super::*;
//@fn {self.name}.rs {self.name}::emitted
//@flag emitted
//@flag props={self.props}
//@begin
    proof {{ caps_eq(); }}
//@concat
    proof {{ assert(vx_r@ == rx()); }}
//@ensures
    res.rx() == rx(),
//@end
}}
}}
'''
        closure = '''//@requires
    old($0).wf(), old($0).k() == 1, shape(old($0).g()),
//@ensures
    final($0).wf(), final($0).g() == old($0).g(),
    match err(old($0).g()) { Some(e) => res is Err && res->Err_0.ev() == e, None => res is Ok && ok(res->Ok_0, old($0).g()) && final($0).k() == old($0).g().len() },
//@begin
    proof { tids(); }
''' if self.srcs else '//@ensures\n    res is Ok,\n'
        return f'''
pub mod {self.name} {{
use super::*;
pub open spec fn rx() -> Seq<Sym> {{ {rx} }}
pub open spec fn shape(g: Seq<Grp>) -> bool {{ {shape} }}
pub open spec fn err(g: Seq<Grp>) -> Option<ErrV> {{ {err_chain(self.srcs, 'g', offs)} }}
pub open spec fn ok<'t>(v: {self.ret()}, g: Seq<Grp>) -> bool {{ {ok} }}
{legal_ax(self.name, 'shape(g)')}
pub proof fn caps_eq() ensures caps(rx(), 0) == {end} - 1 {{ assert(caps(rx(), 0) == {capsum(parts)}) by (compute); tids(); }}
pub mod code {{
use super::*;
broadcast use {{{', '.join(['legal_ax'] + sorted({'lang_' + s.cfg.key for s in self.srcs if s.cfg}) + (['numerals'] if any(s.cfg for s in self.srcs) else []))}}};
//@fn {self.name}.rs {self.name}::emitted
//@flag emitted
//@flag and_then=result
//@flag props={self.props}
//@flag type=crate::sscanf::DynErr=>DynErr
//@begin
    proof {{ caps_eq(); }}
//@concat
    proof {{ assert(vx_r@ == rx()); }}
//@ensures
    res is Err && res->Err_0 is MatchFailed <==> !matches(rx(), $0@),
    matches(rx(), $0@) ==> (match err(groups(rx(), $0@)) {{ Some(e) => res is Err && res->Err_0 is ParsingFailed && res->Err_0->ParsingFailed_0.ev() == e, None => res is Ok && ok(res->Ok_0, groups(rx(), $0@)) }}),
//@end
//@fn {self.name}.rs {self.name}::emitted::{{closure}}
//@flag emitted
//@flag returns=Result<{self.ret()}, DynErr>
//@flag props={self.props}
{closure}//@end
}}
}}
'''

def closing(t, i):
    """index after the bracket that closes the one at t[i], in a printed token stream"""
    lit, n = re.compile(r'"(?:[^"\\]|\\.)*"|\'(?:[^\'\\]|\\.)[^\']*\'|r(#+)".*?"\1', re.S), 0
    while i < len(t):
        m = lit.match(t, i)
        if m: i = m.end(); continue
        if t[i] in '([{': n += 1
        elif t[i] in ')]}': n -= 1
        i += 1
        if n == 0: return i
    raise ValueError('unbalanced')
class Cut(Exception): pass
def cut_at(t, pat, repl, check):
    """replaces what is between the bracket that `pat` ends with and the one that closes it"""
    ms = list(re.finditer(pat, t))
    if len(ms) != 1: raise Cut(f'`{pat}` occurs {len(ms)} times')
    a, b = ms[0].end(), closing(t, ms[0].end() - 1) - 1
    if not re.fullmatch(check, t[a:b].strip(), re.S): raise Cut(f'unexpected text where the placeholders are pasted: {t[a:b].strip()[:200]}')
    return t[:a] + ' ' + repl + ' ' + t[b:]
class AllCase:
    """the emitted program for one placeholder of a type, with the code of the placeholder cut out at the three places where the
    macro pastes it: proved for any number of placeholders (contracts/compose.vrs)"""
    srcs, regexes, variants = [], [], []
    def __init__(self, name, kind='sscanf', props='C09 C11 C14'): self.name, self.kind, self.props = name, kind, props
    def jobs(self): return [dict(name=self.name, kind=self.kind, text=('' if self.kind == 'get_regex' else 'input, ') + '"{}", A')]
    def shown(self): return {'sscanf': 'sscanf', 'unescaped': 'sscanf_unescaped', 'get_regex': 'sscanf_get_regex'}[self.kind] + '!(' + self.jobs()[0]['text'] + ') with any number of placeholders'
    def code(self, out):
        A = r'< A as :: sscanf :: '
        t = cut_at(out, r'concatcp ! \(', 'crate :: compose :: vx_regex ()', r'"\^\(" , ' + A + r'RegexRepresentation > :: REGEX , "\)\$"')
        t, n = re.subn(r'(const NUM_CAPTURES : [^=]*?= 1 \+) ' + A + r'FromScanf > :: NUM_CAPTURES ;', r'\1 crate :: compose :: vx_count () ;', t)
        if n != 1: raise Cut('the number of captures is not declared as expected')
        if self.kind == 'get_regex': return f"pub mod {self.name} {{ pub fn emitted() -> Regex {t} }}\n"
        t = cut_at(t, r'Result :: Ok \(\(', 'crate :: compose :: vx_eval (& mut * src) ?', r'\{.*\}')
        return f"pub mod {self.name} {{ pub fn emitted<'t>(input: &'t str) -> Result<Vec<Val>, crate::sscanf::Error> {t} }}\n"
    def template(self):
        head = f"""
pub mod {self.name} {{
use super::*;
use super::compose::*;
pub mod code {{
use super::*;
broadcast use legal_all;
//@fn {self.name}.rs {self.name}::emitted
//@flag emitted
//@flag props={self.props}
//@concat
    proof {{ assert(vx_r@ =~= rx()); }}
"""
        if self.kind == 'get_regex': return head + """//@ensures
    res.rx() == rx(),
//@end
}
}
"""
        return head + f"""//@flag and_then=result
//@flag type=crate::sscanf::DynErr=>DynErr
//@ensures
    res is Err && res->Err_0 is MatchFailed <==> !matches(rx(), $0@),
    matches(rx(), $0@) ==> (match err(groups(rx(), $0@), 1) {{ Some(e) => res is Err && res->Err_0 is ParsingFailed && res->Err_0->ParsingFailed_0.ev() == e, None => res is Ok && values(res->Ok_0@, groups(rx(), $0@), 1) }}),
//@end
//@fn {self.name}.rs {self.name}::emitted::{{closure}}
//@flag emitted
//@flag returns=Result<Vec<Val>, DynErr>
//@flag props={self.props}
//@requires
    old($0).wf(), old($0).k() == 1, old($0).g().len() == 1 + total(prog(), np()), shapes(old($0).g(), 1),
//@ensures
    final($0).wf(), final($0).g() == old($0).g(),
    match err(old($0).g(), 1) {{ Some(e) => res is Err && res->Err_0.ev() == e, None => res is Ok && values(res->Ok_0@, old($0).g(), 1) && final($0).k() == old($0).g().len() }},
//@end
}}
}}
"""

class AllDerive(AllCase):
    """kind struct: any number of placeholders; enum: any number of variants; seg: the code of one variant, with any number of placeholders"""
    def __init__(self, name, kind, props): self.name, self.kind, self.props = name, kind, props
    def program(self): return '#[sscanf(format = "x{}")] struct S { a: A }' if self.kind == 'struct' else 'enum E { #[sscanf(format = "x{}")] V { a: A } }'
    def jobs(self): return [dict(name=self.name, kind='derive', text=self.program())]
    def shown(self): return '#[derive(FromScanf)] ' + self.program() + {'struct': ' with any number of placeholders', 'seg': ' - the code of a variant with any number of placeholders', 'enum': ' with any number of variants'}[self.kind]
    def code(self, out):
        A, V = r'< A as :: sscanf :: ', 'crate :: compose :: '
        t = out
        fields = '{{ f : {} , d : {} }}'.format(V + 'vx_eval (& mut * src) ?', V + 'vx_defaults ()')
        if self.kind == 'struct':
            t = cut_at(t, r'concatcp ! \(', V + 'vx_regex ()', r'"x\(" , ' + A + r'RegexRepresentation > :: REGEX , "\)"')
            t, n = re.subn(r'(const NUM_CAPTURES : usize = 1 \+) ' + A + r'FromScanf > :: NUM_CAPTURES ;', r'\1 ' + V + 'vx_count () ;', t)
            if n != 1: raise Cut('the number of captures is not declared as expected')
            t = cut_at(t, r'Result :: Ok \(S \{', fields[1:-1], r'a : .*')
        elif self.kind == 'enum':
            t = cut_at(t, r'concatcp ! \(', V + 'vx_regex ()', r'("\(\?:\(?" , )("\(" , )?"x\(" , ' + A + r'RegexRepresentation > :: REGEX , ("\)+"( , )?)+')
            t, n = re.subn(r'(const NUM_CAPTURES : usize = 1 \+) 1 \+ ' + A + r'FromScanf > :: NUM_CAPTURES ;', r'\1 ' + V + 'vx_count () ;', t)
            if n != 1: raise Cut('the number of captures is not declared as expected')
            t, n = re.subn(r'(Box < dyn :: std :: error :: Error >> \{) let expected = .*(unreachable !)', r'\1 match ' + V + r'vx_variants (& mut * src , & mut remaining) { Some (r) => return match r { Ok (v) => Ok (E { v }) , Err (e) => Err (e) } , None => { } } \2', t)
            if n != 1: raise Cut('the code of the variant is not where it is expected')
        else:
            t, n = re.subn(r'(let expected = 1 \+) ' + A + r'FromScanf > :: NUM_CAPTURES ;', r'\1 ' + V + 'vx_count () ;', t, count=1)
            if n != 1: raise Cut('the number of captures of the variant is not counted as expected')
            t = cut_at(t, r'Result :: Ok \(E :: V \{', fields[1:-1], r'a : .*')
            t, n = re.subn(r'unreachable ! \("[^"]*"\) ;', 'return Err (' + V + 'vx_fell ()) ;', t)
            if n != 1: raise Cut('the end of the variants is not where it is expected')
        return f'pub mod {self.name} {{ {t} }}\n'
    def template(self):
        T = 'S' if self.kind == 'struct' else 'E'
        decl = {'struct': 'pub struct S { pub f: Vec<Val>, pub d: Vec<Val> }', 'enum': 'pub struct E { pub v: Val }', 'seg': 'pub enum E { V { f: Vec<Val>, d: Vec<Val> } }'}[self.kind]
        val = {'struct': 'res->Ok_0.d@ == dflts() && values(res->Ok_0.f@, old($0).g(), {o})', 'seg': 'res->Ok_0->d@ == dflts() && values(res->Ok_0->f@, old($0).g(), {o})'}.get(self.kind)
        head = f"""
pub mod {self.name} {{
use super::*;
use super::compose::*;
{decl}
pub mod code {{
use super::*;
"""
        fn = lambda w, flags, req, ens: f"""//@fn {self.name}.rs {self.name}::{w}
//@flag emitted
//@flag props={self.props}
{flags}{'//@requires' + chr(10) + req if req else ''}//@begin
    proof {{ total_pos(); }}
//@ensures
{ens}//@end
"""
        regex = fn(f'RegexRepresentation@{T}::REGEX', "//@flag type=& 'static str=>Rx\n//@concat\n    proof { assert(vx_r@ =~= rx()); }\n", '', '    res@ == rx(), caps(res@, 0) == total(prog(), np()),\n')
        num = fn(f'FromScanf@{T}::NUM_CAPTURES', '', '', '    res == 1 + total(prog(), np()), res >= 1,\n')
        fm, cl = f'FromScanf@{T}::from_matches', f'FromScanf@{T}::from_matches::{{closure}}'
        name = rq(T) + '@'
        if self.kind == 'struct':
            w = fn(fm, '//@flag type=Self :: Err=>FromScanfFailedError\n', '    old($0).wf(), old($0).k() + 1 + total(prog(), np()) <= old($0).g().len(), shapes(old($0).g(), old($0).k() + 1),\n',
                '    final($0).wf(), final($0).g() == old($0).g(),\n    match err(old($0).g(), old($0).k() + 1) { Some(e) => res is Err && res->Err_0.ev() == ErrV::Scan(' + name + ', Box::new(e)), None => res is Ok && ' + val.format(o='old($0).k() + 1') + ' && final($0).k() == old($0).k() + 1 + total(prog(), np()) },\n')
            c = fn(cl, '', '    old($0).wf(), old($0).k() + total(prog(), np()) <= old($0).g().len(), shapes(old($0).g(), old($0).k()),\n',
                '    final($0).wf(), final($0).g() == old($0).g(),\n    match err(old($0).g(), old($0).k()) { Some(e) => res is Err && res->Err_0.ev() == e, None => res is Ok && ' + val.format(o='old($0).k()') + ' && final($0).k() == old($0).k() + total(prog(), np()) },\n')
            return head + regex + num + w + c + '}\n}\n'
        if self.kind == 'enum':
            some = lambda o: f'exists|w: int| #[trigger] won(prog(), old($0).g(), {o}, w)'
            each = lambda o, ok, e: f'    final($0).wf(), final($0).g() == old($0).g(),\n    forall|w: int| #[trigger] won(prog(), old($0).g(), {o}, w) ==> match prog()[w].conv(own(prog(), w, old($0).g(), {o})) {{ Ok(v) => res is Ok && res->Ok_0.v == v && {ok}, Err(e) => res is Err && res->Err_0.ev() == {e} }},\n'
            w = fn(fm, '//@flag type=Self :: Err=>FromScanfFailedError\n', '    old($0).wf(), variants(), old($0).k() + 1 + total(prog(), np()) <= old($0).g().len(), ' + some('old($0).k() + 1') + ',\n',
                each('old($0).k() + 1', 'final($0).k() == old($0).k() + 1 + total(prog(), np())', f'ErrV::Scan({name}, Box::new(e))'))
            c = fn(cl, '', '    old($0).wf(), variants(), old($0).k() + total(prog(), np()) <= old($0).g().len(), *old($1) == total(prog(), np()), ' + some('old($0).k()') + ',\n',
                each('old($0).k()', 'final($0).k() + *final($1) == old($0).k() + *old($1)', 'e'))
            return head + regex + num + w + c + '}\n}\n'
        c = fn(cl, '', '    old($0).wf(), old($0).k() + 1 + total(prog(), np()) <= old($0).g().len(), *old($1) >= 1 + total(prog(), np()), old($0).g()[old($0).k()] is Some ==> shapes(old($0).g(), old($0).k() + 1),\n',
            '    final($0).wf(), final($0).g() == old($0).g(), *final($1) == *old($1) - 1 - total(prog(), np()),\n    old($0).g()[old($0).k()] is None ==> res is Err && res->Err_0.ev() == fell() && final($0).k() == old($0).k() + 1 + total(prog(), np()),\n'
            '    old($0).g()[old($0).k()] is Some ==> match err(old($0).g(), old($0).k() + 1) { Some(e) => res is Err && res->Err_0.ev() == e, None => res is Ok && ' + val.format(o='old($0).k() + 1') + ' && final($0).k() == old($0).k() + 1 + total(prog(), np()) },\n')
        return head + c + '}\n}\n'


class Variant:
    """name: None for a struct. fields: [(field name or index, Src)] in definition order; order: fields in placeholder
    order; named: fields that their placeholder names; lits: literal texts. fmt=None: a variant without a format"""
    def __init__(self, name, fields, order, lits, named=(), shape='named', attr=None, skip=False, regexes=None):
        self.name, self.fields, self.order, self.lits, self.named, self.fshape, self.attr, self.skip = name, fields, order, lits, set(named), shape, attr, skip
        self.regexes = regexes or {}
        for f, s in fields: s.name = str(f)
        d = dict(fields)
        self.srcs = [d[f] for f in order]
        self.types = [s.groups_ty() for s in self.srcs]
    def text_lits(self): return [l.replace('{', '{{').replace('}', '}}') for l in self.lits]
    def format(self):
        l = self.text_lits()
        o = l[0]
        for f, t in zip(self.order, l[1:]):
            s = dict(self.fields)[f]
            opt = ':/' + self.regexes[f].replace('/', '\\/') + '/' if f in self.regexes else (':' + s.cfg.option if s.cfg else '')
            o += '{' + (str(f) if f in self.named else '') + opt + '}' + t
        return o
    def regex_parts(self, escape=True):
        E = esc if escape else (lambda x: x)
        parts = [E(self.lits[0])]
        for f, t, l in zip(self.order, self.types, self.lits[1:]):
            s = dict(self.fields)[f]
            if f in self.regexes: parts[-1] += '(' + self.regexes[f] + ')'
            elif s.cfg: parts[-1] += '(' + s.cfg.regex + ')'
            else: parts[-1] += '('; parts += [('T', t), ')']
            parts[-1] += E(l)
        return parts
    def size(self): return ' + '.join(['1int'] + [n_of(t) for t in self.types])
    def ftype(self, s): return {'str': "&'a str", 'cow': "Cow<'a, str>", 'map': s.to, 'fmap': s.to, 'from': s.to, 'tryfrom': s.to}.get(s.kind, s.ty)
    def fattr(self, s):
        a = {'dflt': 'default', 'expr': f'default = dv_{s.ty}()', 'map': f'map = |x: {s.ty}| map_{s.ty}_{s.to}(x)', 'fmap': f'filter_map = |x: {s.ty}| fmap_{s.ty}_{s.to}(x)', 'from': f'from = {s.ty}', 'tryfrom': f'try_from = {s.ty}'}.get(s.kind)
        return f'#[sscanf({a})] ' if a else ''
    def body(self, attrs, pub):
        p = 'pub ' if pub else ''
        ty = self.ftype if attrs else lambda s: self.ftype(s).replace("Cow<'a, str>", "Cow<'a>")
        if self.fshape == 'unit': return ''
        if self.fshape == 'tuple': return '(' + ', '.join((self.fattr(s) if attrs else '') + p + ty(s) for f, s in self.fields) + ')'
        return ' { ' + ', '.join((self.fattr(s) if attrs else '') + f'{p}{f}: {ty(s)}' for f, s in self.fields) + ' }'
    def lifetimes(self): return any(s.kind in ('str', 'cow') for f, s in self.fields)

class DeriveCase:
    """a struct (one Variant without a name) or an enum"""
    def __init__(self, name, ty, variants, attr=None, props='C10 C11 C14', escape=True, raw=False):
        self.name, self.ty, self.variants, self.attr, self.props, self.escape, self.raw = name, ty, variants, attr, props, escape, raw
        self.enum = variants[0].name is not None
        self.live = [v for v in variants if not v.skip]
        self.lt = "<'a>" if any(v.lifetimes() for v in variants) else ''
    def attr_of(self, v):
        if v.attr is not None: return v.attr
        if v.skip: return '#[sscanf(skip)] '
        if not self.escape: return f'#[sscanf(format_unescaped = {rq(v.format())})] '
        return f'#[sscanf(format = {rq(v.format())})] '
    def decl(self, attrs):
        pub = not attrs
        vis = 'pub ' if pub else ''
        if not self.enum:
            v = self.variants[0]
            a = (self.attr or self.attr_of(v)) if attrs else ''
            return f'{a}{vis}struct {self.ty}{self.lt}{v.body(attrs, pub)}' + (';' if v.fshape != 'named' else '')
        return f"{self.attr or '' if attrs else ''}{vis}enum {self.ty}{self.lt} {{ " + ', '.join((self.attr_of(v) if attrs else '') + v.name + v.body(attrs, False) for v in self.variants) + ' }'
    def program(self): return self.decl(True)
    def jobs(self): return [dict(name=self.name, kind='derive', text=self.program())]
    def shown(self): return '#[derive(FromScanf)] ' + self.program()
    def code(self, out): return f'pub mod {self.name} {{ {out} }}\n'
    def template(self):
        T = self.ty + self.lt
        g, offs = [], []
        def join(parts_list):
            r = ['']
            for p in parts_list:
                if isinstance(p, tuple): r += [p, '']
                else: r[-1] += p
            return r
        if not self.enum: parts = self.variants[0].regex_parts(self.escape)
        else:
            ps = ['(?:']
            for k, v in enumerate(self.live): ps += [('|' if k else '') + '('] + v.regex_parts(self.escape) + [')']
            parts = join(ps + [')'])
        parts = join(parts)
        rx, ln = syms(parts)
        if not self.enum:
            v = self.variants[0]
            offs, end = offsets(v.types)
            shape = ' && '.join(['g[0] is Some'] + [s.shape('g', o) for s, o in zip(v.srcs, offs)])
            err = err_chain(v.srcs, 'g', offs)
            om = dict(zip(v.order, offs))
            ok = ' && '.join([s.ok(f'v.{f}', 'g', om.get(f)) for f, s in v.fields] or ['true'])
            n = v.size()
        else:
            n, heads, alts = '1int', [], []
            for v in self.live:
                heads.append(n)
                o, _ = offsets(v.types, f'{n} + 1')
                alts.append((v, n, o)); n = f'{n} + {v.size()}'
            dis = []
            for v, h, o in alts: dis.append('(' + ' && '.join([f'g[{h}] is Some'] + [f'g[{x}] is None' for x in heads if x != h] + [s.shape('g', q) for s, q in zip(v.srcs, o)]) + ')')
            shape = 'g[0] is Some && (' + ' || '.join(dis or ['false']) + ')'
            err, ok = 'None::<ErrV>', 'false'
            for v, h, o in reversed(alts):
                om = dict(zip(v.order, o))
                err = f'(if g[{h}] is Some {{ {err_chain(v.srcs, "g", o)} }} else {{ {err} }})'
                ok1 = ' && '.join([f'v is {v.name}'] + [s.ok(f'v->{v.name}_{f}', 'g', om.get(f)) if v.fshape == 'tuple' or True else '' for f, s in v.fields])
                ok = f'(if g[{h}] is Some {{ {ok1} }} else {{ {ok} }})'
        rem = ', *old($1) == n_s() - 1' if self.enum else ''
        left = 'final($0).k() + *final($1) == old($0).k() + *old($1)' if self.enum else 'final($0).k() == old($0).k() - 1 + n_s()'
        gq = 'old($0).g().subrange(old($0).k() - 1, old($0).k() - 1 + n_s())'
        captures = bool(self.enum or self.variants[0].types)
        creq = f"""//@requires
    old($0).wf(), 1 <= old($0).k(), old($0).k() - 1 + n_s() <= old($0).g().len(), shape({gq}){rem},
//@ensures
    final($0).wf(), final($0).g() == old($0).g(),
    match err0({gq}) {{ Some(e) => res is Err && res->Err_0.ev() == e, None => res is Ok && ok(res->Ok_0, {gq}) && {left} }},
""" if captures else "//@ensures\n    res is Ok && ok(res->Ok_0, Seq::empty()),\n"
        sv = self.props
        return f"""
pub mod {self.name} {{
use super::*;
{self.decl(False)}
pub open spec fn rx() -> Seq<Sym> {{ {rx} }}
pub open spec fn n_s() -> int {{ {n} }}
pub open spec fn shape(g: Seq<Grp>) -> bool {{ {shape} }}
/// the error of the first conversion that fails
pub open spec fn err0(g: Seq<Grp>) -> Option<ErrV> {{ {err} }}
pub open spec fn err(g: Seq<Grp>) -> Option<ErrV> {{ match err0(g) {{ Some(e) => Some(ErrV::Scan({rq(self.ty)}@, Box::new(e))), None => None }} }}
pub open spec fn ok{self.lt}(v: {T}, g: Seq<Grp>) -> bool {{ {ok} }}
pub proof fn caps_eq() ensures caps(rx(), 0) == n_s() - 1 {{ assert(caps(rx(), 0) == {capsum(parts)}) by (compute); tids(); }}
pub mod code {{
use super::*;
broadcast use sub_sub;
//@fn {self.name}.rs {self.name}::RegexRepresentation@{self.ty}::REGEX
//@flag emitted
//@flag props={self.props}
//@flag type=& 'static str=>Rx
//@concat
    proof {{ assert(vx_r@ == rx()); }}
//@ensures
    res@ == rx(),
//@end
//@fn {self.name}.rs {self.name}::FromScanf@{self.ty}::NUM_CAPTURES
//@flag emitted
//@flag props={self.props}
//@begin
    proof {{ caps_eq(); tids(); }}
//@ensures
    res == n_s(), res == 1 + caps(rx(), 0), 1 <= res,
//@end
//@fn {self.name}.rs {self.name}::FromScanf@{self.ty}::from_matches
//@flag emitted
//@flag props={self.props}
//@flag type=Self :: Err=>FromScanfFailedError
//@requires
    old($0).wf(), old($0).k() + n_s() <= old($0).g().len(), shape(old($0).g().subrange(old($0).k(), old($0).k() + n_s())),
//@begin
    proof {{ tids(); }}
//@ensures
    final($0).wf(), final($0).g() == old($0).g(),
    match err(old($0).g().subrange(old($0).k(), old($0).k() + n_s())) {{ Some(e) => res is Err && res->Err_0.ev() == e, None => res is Ok && ok(res->Ok_0, old($0).g().subrange(old($0).k(), old($0).k() + n_s())) && final($0).k() == old($0).k() + n_s() }},
//@end
//@fn {self.name}.rs {self.name}::FromScanf@{self.ty}::from_matches::{{closure}}
//@flag emitted
//@flag props={self.props}
{creq}//@begin
    proof {{ tids(); }}
//@end
}}
}}
"""

# ---------------------------------------------------------------- radix placeholders
INTS = {f'{s}{b}': (s == 'i', b if b != 'size' else 64) for s in 'ui' for b in (8, 16, 32, 64, 128, 'size')}
def lo_hi(t): s, b = INTS[t]; return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)
OPTS = {}
for _c, _r in (('x', 16), ('o', 8), ('b', 2)):
    OPTS[_c] = (_r, f"Pfx::Optional('{_c}')"); OPTS['#' + _c] = (_r, f"Pfx::Forced('{_c}')")
for _r in range(2, 37): OPTS[f'r{_r}'] = (_r, 'Pfx::Never')
class Radix:
    """option `opt` on integer type `ty`: what it matches and what it yields, from the documentation"""
    def __init__(self, ty, opt):
        self.ty, self.option = ty, opt
        self.signed, self.bits = INTS[ty]
        self.base, self.pfx = OPTS[opt]
        self.key = f"{ty}_{opt.replace('#', 'h')}"
        self.regex = None   # text the macro emits
        self.args = f"{str(self.signed).lower()}, {self.pfx}, {self.base}"
    def txt(self, g, o): return f'{g}[{o}]->0.s'
    def pre(self, g, o): return f're_{self.key}_in({self.txt(g, o)})'
    def val(self, g, o): return f'num_val({self.txt(g, o)}, {self.args})'
    def err(self, g, o): lo, hi = lo_hi(self.ty); return f'(if {lo} <= {self.val(g, o)} <= {hi} {{ None::<ErrV> }} else {{ Some(ErrV::Int) }})'
    def ok(self, v, g, o): return f'{v} as int == {self.val(g, o)}'
    def decls(self, term):
        """the language of the emitted regex (term: what regex-syntax parses it to)"""
        ns = [int(x) for x in re.findall(r'Some\((\d+)nat\)', term)]
        n, (lo, hi) = (ns[-1] if ns else 0), lo_hi(self.ty)
        top = (1 << self.bits) - 1
        return f'''
/// `{self.regex}` as parsed by regex-syntax
#[verifier::opaque] pub open spec fn re_{self.key}() -> Re {{ {term} }}
pub open spec fn re_{self.key}_in(s: Seq<char>) -> bool {{ lang(re_{self.key}(), s) }}
/// `{self.option}` on {self.ty}: exactly the numerals
pub broadcast proof fn lang_{self.key}(s: Seq<char>) ensures #[trigger] re_{self.key}_in(s) <==> numeral(s, {self.args}, {n}) // [C05]
{{ reveal(re_{self.key});
  assert(re_{self.key}() == radix_re({self.args}, {n})) by (compute); // [SHAPE]
  lang_radix({self.args}, {n}, s); }} // [C05]
/// {n} is the number of digits of {top} in base {self.base}
pub proof fn len_{self.key}() ensures {n} >= 1, pow({self.base}, {n - 1}) <= {top}, {top} < pow({self.base}, {n}) // [C05]
{{ assert(pow({self.base}, {n - 1}) <= {top} && {top} < pow({self.base}, {n})) by (compute); }} // [C05]
/// every value of {self.ty} written in base {self.base} is matched, and denotes that value
pub proof fn every_{self.key}(v: int, up: bool, plus: bool, upp: bool, with: bool) requires {lo} <= v <= {hi}, {'!with' if 'Never' in self.pfx else 'with' if 'Forced' in self.pfx else 'true'}
    ensures ({{ let s = written(v, {self.base}, up, plus, if with {{ seq!['0', if upp {{ upper({self.pc()}) }} else {{ {self.pc()} }}] }} else {{ seq![] }}); re_{self.key}_in(s) && num_val(s, {self.args}) == v }}) // [C05]
{{ len_{self.key}(); value_numeral(v, {self.args}, {n}, up, plus, upp, with); lang_{self.key}(written(v, {self.base}, up, plus, if with {{ seq!['0', if upp {{ upper({self.pc()}) }} else {{ {self.pc()} }}] }} else {{ seq![] }})); }} // [C05]
'''
    def expected(self):
        """a regex for what the documentation says"""
        n, v = 0, (1 << self.bits) - 1
        while v: n += 1; v //= self.base
        b = self.base
        d = '0-%d' % (b - 1) if b <= 10 else '0-9a-%cA-%c' % (86 + b, 54 + b)
        p = '' if 'Never' in self.pfx else '0[%s%s]' % (self.option[-1], self.option[-1].upper())
        if 'Optional' in self.pfx: p = f'(?:{p})?'
        return ('[+-]?' if self.signed else '\\+?') + p + '[%s]{1,%d}' % (d, n)
    def pc(self): return "'" + self.option[-1] + "'" if 'Never' not in self.pfx else "'x'"
def radix_src(ty, opt): return Src('radix', ty, cfg=Radix(ty, opt))
def int_decls(tys=INTS):
    o = ''
    for k, t in enumerate(tys):
        lo, hi = lo_hi(t)
        o += f'''impl RegexRepresentation for {t} {{ open spec fn tid() -> int {{ {100 + k} }} #[verifier::external_body] fn REGEX() -> Rx {{ unimplemented!() }} }}
impl<'t> FromScanf<'t> for {t} {{ type Err = LeafErr; open spec fn n() -> int {{ 1 }} open spec fn shape(g: Seq<Grp>) -> bool {{ g.len() == 1 && g[0] is Some }} uninterp spec fn conv(g: Seq<Grp>) -> Result<Self, ErrV>;
  #[verifier::external_body] fn NUM_CAPTURES() -> usize {{ unimplemented!() }} #[verifier::external_body] fn from_matches(src: &mut SubCaptureMatches<'_, 't>) -> Result<Self, LeafErr> {{ unimplemented!() }} }}
'''
    o += 'pub mod radix_std { use super::*;\n'
    for t in tys:
        lo, hi = lo_hi(t)
        o += f'''#[verifier::external_body] pub fn from_str_radix_{t}(s: &str, radix: u32) -> (r: Result<{t}, IntErr>) requires 2 <= radix <= 36 ensures match std_parse(s@, radix as int, {lo}, {hi}) {{ Some(v) => r is Ok && r->Ok_0 as int == v, None => r is Err }} {{ unimplemented!() }}
'''
    return o + '}\n'
def radix_cases(tys=INTS, chunk=6):
    o = []
    for t in tys:
        opts = list(OPTS)
        for j in list(range(6)) + list(range(6, len(opts), chunk)):
            srcs = [radix_src(t, p) for p in opts[j:j + (1 if j < 6 else chunk)]]
            o.append(SscanfCase(f'r_{t}_{j}', '"' + '%'.join('{:' + s.cfg.option + '}' for s in srcs) + '"' + f', {t}' * len(srcs), [''] + ['%'] * (len(srcs) - 1) + [''], srcs, props='C05 C06'))
    return o
def radix_of(c): return [s for s in (c.srcs if isinstance(c, SscanfCase) else [s for v in c.variants for s in v.srcs]) if s.cfg]
def lit_of(tok):
    m = re.fullmatch(r'r(#*)"(.*)"\1', tok, re.S)
    return m.group(2) if m else json.loads(re.sub(r"\\'", "'", tok))
def concat_items(out):
    """[[literal text or type]] of every concatcp! in emitted code"""
    r = []
    for m in re.finditer(r'concatcp ! \(', out):
        items, i = [], m.end()
        while True:
            t = re.compile(r'\s*(?:("(?:[^"\\]|\\.)*"|r(#*)".*?"\2)|<\s*(.*?)\s+as\s.*?>\s*::\s*REGEX)\s*(,|\))', re.S).match(out, i)
            if not t: items = None; break
            items.append(lit_of(t.group(1)) if t.group(1) else ('T', t.group(3).replace(' ', '')))
            i = t.end()
            if t.group(4) == ')': break
        r.append(items)
    return r
def find_radix(c, out):
    """the regex text the macro emitted for each radix placeholder; returns the texts, or None"""
    srcs = radix_of(c)
    if not srcs: return []
    for s in srcs: s.cfg.regex = '\0'
    want = ''.join('\1' if isinstance(p, tuple) else p for p in c.regex_parts())
    pat = re.escape(want).replace(re.escape('\0'), '(.+?)')
    for items in concat_items(out):
        if items is None: continue
        m = re.fullmatch(pat, ''.join('\1' if isinstance(p, tuple) else p for p in items), re.S)
        if m:
            for s, x in zip(srcs, m.groups()): s.cfg.regex = x
            return list(m.groups())
    return None

LEAVES = ['A', 'B', 'C', 'D', 'P']
PLAIN = ['P']  # one capture, like every type with FromStr
def leaf_decls(ints=()):
    o = ''
    for t in LEAVES:
        nn = 'open spec fn n() -> int { 1 } open spec fn shape(g: Seq<Grp>) -> bool { g.len() == 1 && g[0] is Some }' if t in PLAIN else 'uninterp spec fn n() -> int; uninterp spec fn shape(g: Seq<Grp>) -> bool;'
        o += f'''#[verifier::external_body] pub struct {t} {{ x: usize }}
impl RegexRepresentation for {t} {{ open spec fn tid() -> int {{ {LEAVES.index(t) + 1} }} #[verifier::external_body] fn REGEX() -> Rx {{ unimplemented!() }} }}
impl<'t> FromScanf<'t> for {t} {{ type Err = LeafErr; {nn} uninterp spec fn conv(g: Seq<Grp>) -> Result<Self, ErrV>;
  #[verifier::external_body] fn NUM_CAPTURES() -> usize {{ unimplemented!() }} #[verifier::external_body] fn from_matches(src: &mut SubCaptureMatches<'_, 't>) -> Result<Self, LeafErr> {{ unimplemented!() }} }}
impl Default for {t} {{ uninterp spec fn dflt() -> {t}; #[verifier::external_body] fn default() -> {t} {{ unimplemented!() }} }}
pub uninterp spec fn dv_{t}_s() -> {t};
#[verifier::external_body] pub fn dv_{t}() -> (r: {t}) ensures r == dv_{t}_s() {{ unimplemented!() }}
'''
    for a in LEAVES:
        for b in LEAVES:
            if a == b: continue
            o += f'''impl From<{a}> for {b} {{ uninterp spec fn frm(a: {a}) -> {b}; #[verifier::external_body] fn from(a: {a}) -> {b} {{ unimplemented!() }} }}
impl TryFrom<{a}> for {b} {{ type Error = LeafErr; uninterp spec fn tfrm(a: {a}) -> Result<{b}, ErrV>; #[verifier::external_body] fn try_from(a: {a}) -> Result<{b}, LeafErr> {{ unimplemented!() }} }}
pub uninterp spec fn map_{a}_{b}_s(x: {a}) -> {b};
#[verifier::external_body] pub fn map_{a}_{b}(x: {a}) -> (r: {b}) ensures r == map_{a}_{b}_s(x) {{ unimplemented!() }}
pub uninterp spec fn fmap_{a}_{b}_s(x: {a}) -> Option<{b}>;
#[verifier::external_body] pub fn fmap_{a}_{b}(x: {a}) -> (r: Option<{b}>) ensures r == fmap_{a}_{b}_s(x) {{ unimplemented!() }}
'''
    o += 'pub mod my { pub use super::A as str; }\n'
    o += '''impl RegexRepresentation for str { open spec fn tid() -> int { 0 } #[verifier::external_body] fn REGEX() -> Rx { unimplemented!() } }
'''
    tl = ', '.join([f'{t}::n() == 1 + groups_of({t}::tid()) && {t}::n() >= 1' for t in LEAVES + list(ints)] + ['groups_of(<str as RegexRepresentation>::tid()) == 0'])
    o += f'''/// trusted: a type's declared number of captures is one more than the groups in its regex (for derived types: proved here)
#[verifier::external_body] pub proof fn tids() ensures {tl} {{}}
'''
    return o

def unit_template(cases, ints='', intnames=()):
    t = '//@include shims.vrs\n//@include scan_model.vrs\n' + ('//@include compose.vrs\n' if any(isinstance(c, AllCase) for c in cases) else '') + 'verus! {\n' + leaf_decls(intnames) + ints
    return t + ''.join(c.template() for c in cases) + '} // verus!\nfn main() {}\n'

def write_unit(cases, hunter, build, name, ints='', intnames=()):
    """runs the macros; returns (template path, NAME=FILE arguments, problems)"""
    jobs = [j for c in cases for j in c.jobs()]
    d = f"{build}/{name}_d"
    os.makedirs(d, exist_ok=True)
    json.dump(jobs, open(d + '/in.json', 'w'))
    subprocess.run([hunter, 'emit', d + '/in.json', d + '/out.json'], check=True, timeout=120)
    out = json.load(open(d + '/out.json'))
    files, bad, good, texts = [], [], [], set()
    for c in cases:
        r = out[c.name]
        if 'out' not in r or 'compile_error' in r['out'][:200]: bad.append((c.shown(), r.get('error') or r['out'][:400], None)); continue
        x = find_radix(c, r['out'])
        if x is None: bad.append((c.shown(), None, 'the emitted regex is not built the way the contract expects: ' + str(concat_items(r['out']))[:300])); continue
        texts |= set(x)
        try: code = c.code(r['out'])
        except Cut as e: bad.append((c.shown(), None, 'the placeholders cannot be cut out of the emitted code: ' + str(e)[:300])); continue
        open(f'{d}/{c.name}.rs', 'w').write(code)
        files.append(f'{c.name}.rs={d}/{c.name}.rs'); good.append(c)
    if texts:
        order = sorted(texts)
        json.dump([dict(name=str(k), kind='hir', text=x) for k, x in enumerate(order)], open(d + '/hin.json', 'w'))
        subprocess.run([hunter, 'emit', d + '/hin.json', d + '/hout.json'], check=True, timeout=120)
        h = json.load(open(d + '/hout.json'))
        # a regex that is built differently: look for an input on which it is wrong (product of the automata)
        odd = {s.cfg.key: s.cfg for c in good for s in radix_of(c)}
        exp = sorted({c.expected() for c in odd.values()})
        json.dump([dict(name=x, kind='hir', text=x) for x in exp], open(d + '/hin.json', 'w'))
        subprocess.run([hunter, 'emit', d + '/hin.json', d + '/hx.json'], check=True, timeout=120)
        hx = json.load(open(d + '/hx.json'))
        odd = {k: c for k, c in odd.items() if hx[c.expected()]['term'] != h[str(order.index(c.regex))].get('term')}
        if odd:
            json.dump([dict(name=k + n, kind='included', text=json.dumps(dict(sub=x, sup=y))) for k, c in odd.items() for n, x, y in ((' low', c.expected(), c.regex), (' up', c.regex, c.expected()))], open(d + '/hin.json', 'w'))
            subprocess.run([hunter, 'emit', d + '/hin.json', d + '/hx.json'], check=True, timeout=300)
            for k, w in json.load(open(d + '/hx.json')).items():
                if w['witness'] is not None:
                    c = odd[k.split()[0]]
                    bad.append((f'sscanf!(s, "{{:{c.option}}}", {c.ty})', dict(input=w['witness'], what=f'the placeholder is emitted as `{c.regex}`, which ' + ('does not match this text; it is a numeral of the option' if k.endswith('low') else 'matches this text; it is not a numeral of the option')), None))
        term = {x: h[str(k)].get('term', 'Re::Other') for k, x in enumerate(order)}
        cfgs = {s.cfg.key: s.cfg for c in good for s in radix_of(c)}
        intnames = sorted({c.ty for c in cfgs.values()}, key=list(INTS).index)
        ints = '} // verus!\n//@include regex_lang.vrs\n//@include radix_spec.vrs\nverus! {\n' + int_decls(intnames) + ''.join(c.decls(term[c.regex]) for c in cfgs.values())
    tpl = f'{d}/{name}.vrs'
    t = unit_template(good, ints, intnames)
    for f in ('shims.vrs', 'scan_model.vrs', 'compose.vrs', 'regex_lang.vrs', 'radix_spec.vrs'): t = t.replace('//@include ' + f, f'//@include {HERE}/contracts/{f}')
    open(tpl, 'w').write(t)
    return tpl, files, bad

LITS = ['', '', '', ' ', ':', ', ', '.', '(a)', '[x]*', 'ab', '|', '{', '}', '{}', '^$', 'x+y?', '-', '"', 'é', '\\']
def rand_lits(r, n, unesc=False):
    pool = LITS if not unesc else ['', '', ' ', 'a+', '(?:x|y)', '[^a-c]', '.*?', 'z{{2}}'.replace('{{', '{').replace('}}', '}'), '\\d', ',', '#']
    return [r.choice(pool) for _ in range(n + 1)]
def fmt_text(lits, phs):
    d = [l.replace('{', '{{').replace('}', '}}') for l in lits]
    return d[0] + ''.join('{' + p + '}' + t for p, t in zip(phs, d[1:]))

def rand_sscanf(r, name, kind='sscanf', props='C09 C11 C14', types=None):
    """types, and for each placeholder how it gets its type: by position, by index or by itself"""
    types = types or LEAVES
    n = r.randint(1, 5)
    args, seq = [], []
    def spell(): t = r.choice(types); return t if isinstance(t, tuple) else (t, Src('T', t))
    modes = [r.choice('pppit') for _ in range(n)]
    # positional placeholders take the types in order; every type has to be used
    for m in modes:
        if m == 'p': args.append(spell())
    extra = 0
    if 'i' in modes:
        k = modes.count('i')
        extra = r.randint(0, min(2, k))
        for _ in range(extra): args.append(spell())
        if not args: args.append(spell()); extra = 1
    phs, srcs, regs, p, must = [], [], [], 0, list(range(len(args) - extra, len(args)))
    r.shuffle(must)
    for m in modes:
        if m == 'p': h, (t, s) = '', args[p]; p += 1
        elif m == 'i':
            i = must.pop() if must else r.randrange(len(args))
            h, (t, s) = str(i), args[i]
        else: t, s = spell(); h = t
        rg = None
        if s.kind != 'T' or s.ty in PLAIN:
            if r.random() < 0.3: rg = r.choice(['x(?:y)', '[a-c]+', '.*?', '\\(', 'a|b'])
        if rg: h += ':/' + rg.replace('/', '\\/') + '/'
        phs.append(h); srcs.append(s); regs.append(rg)
    if must: return rand_sscanf(r, name, kind, props, types)
    unesc = kind == 'unescaped'
    lits = rand_lits(r, n, unesc)
    f = fmt_text(lits, phs)
    lit = 'r##"' + f + '"##'
    return SscanfCase(name, lit + ''.join(', ' + a[0] for a in args), lits, srcs, kind, not unesc, regs, props)

STRS = [('str', Src('str', STR)), ('&str', Src('str', STR)), ('primitive::str', Src('str', STR)), ('std::primitive::str', Src('str', STR)), ('::std::primitive::str', Src('str', STR)), ('core::primitive::str', Src('str', STR)), ('::core::primitive::str', Src('str', STR)),
    ('&std::primitive::str', Src('str', STR)), ('Cow<str>', Src('cow', STR)), ('borrow::Cow<str>', Src('cow', STR)), ('std::borrow::Cow<str>', Src('cow', STR)), ('::std::borrow::Cow<str>', Src('cow', STR)), ('alloc::borrow::Cow<str>', Src('cow', STR)), ('Cow<::std::primitive::str>', Src('cow', STR)), ('Cow<primitive::str>', Src('cow', STR)), ('A', Src('T', 'A')), ('my::str', Src('T', 'my::str'))]

def rand_src(r, strs=0.15):
    x = r.random()
    if x < 0.35: return Src('T', r.choice(LEAVES))
    if x < 0.35 + strs: return Src(r.choice(['str', 'cow']), STR)
    a, b = r.sample(LEAVES, 2)
    return Src(*r.choice([('map', a, b), ('fmap', a, b), ('from', a, b), ('tryfrom', a, b), ('dflt', a), ('expr', a)]))
def rand_body(r, name, shape=None, unesc=False, srcs=None):
    shape = shape or r.choice(['named', 'named', 'tuple'])
    srcs = srcs or [rand_src(r) for _ in range(r.randint(1, 4))]
    fields = [((k if shape == 'tuple' else 'abcdefgh'[k]), s) for k, s in enumerate(srcs)]
    ph = [f for f, s in fields if s.placeholder()]
    named = [f for f in ph if r.random() < 0.5]
    anon = [f for f in ph if f not in named]
    order = [None] * len(ph)
    pos = list(range(len(ph))); r.shuffle(pos)
    for f, i in zip(named, pos): order[i] = f
    it = iter(anon)
    order = [next(it) if o is None else o for o in order]
    regs = {f: r.choice(['x(?:y)', '[a-c]+', '.*?']) for f, s in fields if s.placeholder() and (s.kind in ('str', 'cow') or s.ty in PLAIN) and r.random() < 0.2}
    return Variant(name, fields, order, rand_lits(r, len(ph), unesc), named, shape, regexes=regs)
def rand_struct(r, name, props='C10 C11 C14', unesc=False, srcs=None):
    return DeriveCase(name, r.choice(['S', 'Foo', 'Q1']), [rand_body(r, None, unesc=unesc, srcs=srcs)], props=props, escape=not unesc)
def rand_enum(r, name, props='C12 C11 C14'):
    vs, n = [], r.randint(1, 4)
    for k in range(n):
        nm = f'V{k}'
        x = r.random()
        if x < 0.2 and n > 1: v = rand_body(r, nm); vs.append(Variant(nm, v.fields, [], [''], (), v.fshape, skip=True, attr='#[sscanf(skip)] ' if r.random() < 0.6 else ''))
        elif x < 0.4: vs.append(Variant(nm, [], [], [r.choice(['u', 'x.y', '', 'W|', '{'])], (), 'unit'))
        else: vs.append(rand_body(r, nm))
    # attributes of fields in skipped variants are not looked at: leave them out
    for v in vs:
        if v.skip: v.fattr = lambda s: ''
    if all(v.skip for v in vs): return rand_enum(r, name, props)
    return DeriveCase(name, 'E', vs, props=props)

def sscanf_cases():
    T = lambda t: Src('T', t)
    S, W = Src('str', STR), Src('cow', STR)
    return [
        SscanfCase('s_none', '"hello"', ['hello'], []),
        SscanfCase('s_one', '"{}", A', ['', ''], [T('A')]),
        SscanfCase('s_two', '"a{}b{}c", A, B', ['a', 'b', 'c'], [T('A'), T('B')]),
        SscanfCase('s_idx', '"{1}{}.{0} {1}", A, B', ['', '', '.', ' ', ''], [T('B'), T('A'), T('A'), T('B')]),
        SscanfCase('s_inl', '"{A}x{}{{}}{B}", C', ['', 'x', '{}', ''], [T('A'), T('C'), T('B')]),
        SscanfCase('s_mix', '"{}({A}{2}){1}{str}", A, Cow<str>, D', ['', '(', '', ')', '', ''], [T('A'), T('A'), T('D'), W, S]),
        SscanfCase('s_inl2', '"{A}{}{B}{}", C, D', ['', '', '', '', ''], [T('A'), T('C'), T('B'), T('D')]),
    ] + [rand_sscanf(random.Random(100 + k), f's_r{k}') for k in range(8)] + [AllCase('s_all')]
def str_cases():
    o = []
    for k in range(0, len(STRS), 3):
        part = STRS[k:k + 3]
        o.append(SscanfCase(f't_a{k}', '"{}-{}' + ('-{}"' if len(part) > 2 else '"') + ''.join(', ' + t for t, _ in part), ['', '-', '-', ''][:len(part)] + [''], [s for _, s in part], props='C16'))
        o.append(SscanfCase(f't_b{k}', '"' + '.'.join('{' + t + '}' for t, _ in part) + '"', ['', '.', '.', ''][:len(part)] + [''], [s for _, s in part], props='C16'))
    return o + [rand_sscanf(random.Random(200 + k), f't_r{k}', props='C16', types=STRS) for k in range(3)]
def regex_cases():
    T = lambda t: Src('T', t)
    o = [
        SscanfCase('g_two', 'r"a.{}b{:/x(?:y)/}\\", A, P', ['a.', 'b', '\\'], [T('A'), T('P')], 'get_regex', regexes=[None, 'x(?:y)'], props='C19'),
        SscanfCase('u_two', '"a.{}b{1:/x(?:y)/}+{{", A, P', ['a.', 'b', '+{'], [T('A'), T('P')], 'unescaped', False, regexes=[None, 'x(?:y)'], props='C19'),
    ]
    for k in range(6):
        c = rand_sscanf(random.Random(300 + k), f'g_s{k}', props='C19')
        o += [c, SscanfCase(f'g_g{k}', c.program, c.lits, c.srcs, 'get_regex', True, c.regexes, 'C19')]
    for k in range(6): o.append(rand_sscanf(random.Random(400 + k), f'g_u{k}', 'unescaped', 'C19'))
    return o + [AllCase('g_as', 'sscanf', 'C19'), AllCase('g_au', 'unescaped', 'C19'), AllCase('g_ag', 'get_regex', 'C19')]
def unesc_cases(): return [rand_struct(random.Random(500 + k), f'n_{k}', 'C19', unesc=True) for k in range(6)]
def struct_cases():
    T = lambda t: Src('T', t)
    S, W = lambda: Src('str', STR), lambda: Src('cow', STR)
    V = Variant
    one = lambda fields, order, lits, named=(), shape='named', **k: [V(None, fields, order, lits, named, shape, **k)]
    return [
        DeriveCase('d_unit', 'S', one([], [], ['x.y'], shape='unit')),
        DeriveCase('d_one', 'S', one([('a', T('A'))], ['a'], ['', ''])),
        DeriveCase('d_map', 'S', one([('a', T('A')), ('b', Src('map', 'B', 'C')), ('f', Src('tryfrom', 'A', 'D'))], ['b', 'a', 'f'], ['', ':', '', ''], ['b', 'f'])),
        DeriveCase('d_tup', 'S', one([(0, T('A')), (1, Src('from', 'D', 'B')), (2, Src('dflt', 'C')), (3, Src('expr', 'A'))], [1, 0], ['{', '}:', ''], [1], 'tuple')),
        DeriveCase('d_fm', 'S', one([('a', Src('fmap', 'A', 'B')), ('b', T('B'))], ['b', 'a'], ['', '-', ''], ['b', 'a'])),
        DeriveCase('d_tr', 'S', one([(0, T('A'))], [0], ['', ''], shape='tuple', attr='#[sscanf(transparent)] ')),
        DeriveCase('d_gap', 'S', one([('a', Src('dflt', 'A')), ('b', T('B')), ('c', T('C')), ('d', T('D'))], ['b', 'c', 'd'], ['', ' ', ' ', ''], ['c'])),
    ] + [rand_struct(random.Random(600 + k), f'd_r{k}') for k in range(8)] + [AllDerive('d_all', 'struct', 'C10 C11 C14')]
def dstr_cases():
    S, W = lambda: Src('str', STR), lambda: Src('cow', STR)
    V = Variant
    return [
        DeriveCase('p_str', 'S', [V(None, [('a', S()), ('b', W()), ('c', Src('T', 'A'))], ['a', 'b', 'c'], ['', '-', '', ''])], props='C16'),
        DeriveCase('p_trc', 'S', [V(None, [(0, W())], [0], ['', ''], shape='tuple', attr='#[sscanf(transparent)] ')], props='C16'),
        DeriveCase('p_enum', 'E', [V('X', [(0, S()), (1, W())], [1, 0], ['', ':', ''], [1, 0], 'tuple'), V('Y', [('a', S())], ['a'], ['=', ''])], props='C16'),
    ] + [rand_struct(random.Random(700 + k), f'p_r{k}', 'C16', srcs=[S(), Src('T', 'A'), W()]) for k in range(3)]
def enum_cases():
    T = lambda t: Src('T', t)
    V = Variant
    return [
        DeriveCase('e_one', 'E', [V('V', [(0, T('A')), (1, T('B'))], [0, 1], ['x', 'y', ''], [], 'tuple'), V('W', [], [], ['u'], [], 'unit'), V('Q', [(0, T('A'))], [], [''], [], 'tuple', skip=True), V('Z', [('a', T('C')), ('b', Src('fmap', 'A', 'B'))], ['b', 'a'], ['', 'z', ''], ['b'])], props='C12 C11 C14'),
        DeriveCase('e_tr', 'E', [V('V', [(0, T('A'))], [0], ['', ''], [], 'tuple', attr='#[sscanf(transparent)] '), V('W', [('a', T('B'))], ['a'], ['', ''], attr='#[sscanf(transparent)] ')], props='C12 C11 C14'),
        DeriveCase('e_skip', 'E', [V('V', [(0, T('A'))], [], [''], [], 'tuple', skip=True), V('W', [('a', T('B'))], ['a'], ['', '']), V('X', [], [], [''], [], 'unit', skip=True, attr=''), V('Y', [(0, T('D'))], [0], ['|', ''], [], 'tuple')], props='C12 C11 C14'),
    ] + [rand_enum(random.Random(800 + k), f'e_r{k}') for k in range(9)] + [AllDerive('e_all', 'enum', 'C12 C11 C14'), AllDerive('e_seg', 'seg', 'C10 C12 C11 C14')]
def autogen_cases():
    import gen_e2e
    o = []
    r = random.Random(900)
    names = ['FooBar', 'Ab', 'IsElementType', 'Kilo', 'Zed']
    for k, kind in enumerate(list(gen_e2e.CASES) + ['CaseSensitive', 'CaseInsensitive', None]):
        for spelled in ({kind, kind.lower() if kind == 'CaseInsensitive' else kind} if kind else {None}):
            vs = []
            for j, n in enumerate(names):
                if j == 1: vs.append(Variant(n, [], [], ['own.'], (), 'unit')); continue
                if j == 3: vs.append(Variant(n, [], [], [''], (), 'unit', skip=True)); continue
                t = n if kind in (None, 'CaseSensitive') else f'(?i:{n})' if kind == 'CaseInsensitive' else gen_e2e.CASES[kind](gen_e2e.words(n))
                v = Variant(n, [], [], [t], (), 'unit', attr='')
                if kind == 'CaseInsensitive': v.regex_parts = (lambda t: lambda escape=True: [t])(t)
                vs.append(v)
            o.append(DeriveCase(f'x_{k}' + ('b' if spelled != kind else ''), 'E', vs, attr='#[sscanf(autogen)] ' if kind is None else f'#[sscanf(autogen = {rq(spelled)})] ', props='C13'))
    return o
GROUPS = dict({f'emitted_radix_{t}': (lambda t: lambda: radix_cases([t]))(t) for t in INTS}, emitted_sscanf=sscanf_cases, emitted_str=lambda: str_cases() + dstr_cases(), emitted_regex=lambda: regex_cases() + unesc_cases(), emitted_struct=struct_cases, emitted_enum=enum_cases, emitted_autogen=autogen_cases)
def random_group(seed, name):
    """more shapes, for the thorough tier"""
    r = random.Random(seed)
    return {'emitted_sscanf': lambda: [rand_sscanf(r, f's_t{k}') for k in range(16)], 'emitted_str': lambda: [rand_sscanf(r, f't_t{k}', props='C16', types=STRS) for k in range(8)] + [rand_struct(r, f'p_t{k}', 'C16', srcs=[rand_src(r, 0.5) for _ in range(3)]) for k in range(6)],
        'emitted_regex': lambda: [rand_sscanf(r, f'u_t{k}', r.choice(['unescaped', 'get_regex']), 'C19') for k in range(10)] + [rand_struct(r, f'n_t{k}', 'C19', unesc=True) for k in range(5)],
        'emitted_struct': lambda: [rand_struct(r, f'd_t{k}') for k in range(12)], 'emitted_enum': lambda: [rand_enum(r, f'e_t{k}') for k in range(12)], 'emitted_autogen': autogen_cases}.get(name, lambda: None)()

if __name__ == '__main__':
    import sys
    sys.path.insert(0, HERE + '/tools')
    import prove
    names = sys.argv[1:]
    for u in names:
        cases = GROUPS[u]()
        tpl, files, bad = write_unit(cases, HERE + '/build/target/debug/hunter', HERE + '/build/v', u)
        print(bad)
        os.environ.setdefault('VX_BIN', HERE + '/build/target/debug/vx')
        r = prove.run_unit(u, os.environ.get('REPO', '/repo'), HERE + '/build/v', tpl=tpl, extra_files=files)
        prove.show(r)
