"""Proof unit over the REGEX constants of the std types and the deprecated wrappers.

The constants are taken from the compiled crate of this tree (hunter emit, kind consts) together with the
term regex-syntax parses each of them to. The obligations are about the language of that term.
"""
import json, os, re, subprocess, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INT = {f'{s}{w}': (s == 'i', 64 if w == 'size' else w) for s in 'ui' for w in (8, 16, 32, 64, 128, 'size')}
def lim(t): s, w = INT[t]; return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
def lit(v): return f'({v}int)' if v < 0 else f'{v}int'
CLS = re.compile(r'Re::Cls\(seq!\[((?:\(\d+u32, \d+u32\)(?:, )?)*)\]\)')

def obligations(t, n):
    """(spec fn name of the term) -> Verus proof functions for type t; d: the class of digits that occurs in it, n: the repetition bound"""
    k = ident(t)
    T = f'term_{k}()'
    if t in INT:
        lo, hi = lim(t); s = 'true' if INT[t][0] else 'false'
        return f'''proof fn shape_{k}() ensures {T} == int_re({s}, dcls_{k}(), {n}nat)
{{ reveal(term_{k});
  assert({T} == int_re({s}, dcls_{k}(), {n}nat)) by (compute); // [SHAPE]
}}
/// C07: every value, with or without a plus sign, is matched and std reads it back
proof fn values_{k}(v: {t}, plus: bool) ensures lang({T}, display(v as int, plus)), std_parse(display(v as int, plus), 10, {lit(lo)}, {lit(hi)}) == Some(v as int) // [C07]
{{ shape_{k}(); digs_{k}(); assert({max(hi, -lo)} < pow(10, {n})) by (compute); // [C07]
  int_round_trip(v as int, {s}, dcls_{k}(), {n}nat, plus, {lit(lo)}, {lit(hi)}); // [C07]
}}
/// C07: nothing but an optional sign and digits is matched
proof fn only_{k}(s: Seq<char>) ensures lang({T}, s) ==> int_text(s, {s}, dcls_{k}(), {n}int) // [C07]
{{ shape_{k}(); digs_{k}(); lang_int({s}, dcls_{k}(), {n}nat, s); }}
'''
    if t.startswith('NonZero'):
        b = t[7:].lower(); lo, hi = lim(b); s = 'true' if INT[b][0] else 'false'
        return f'''proof fn shape_{k}() ensures {T} == nz_re({s}, dcls_{k}(), {n}nat)
{{ reveal(term_{k});
  assert({T} == nz_re({s}, dcls_{k}(), {n}nat)) by (compute); // [SHAPE]
}}
proof fn values_{k}(v: {b}, plus: bool) requires v != 0 ensures lang({T}, display(v as int, plus)), std_parse(display(v as int, plus), 10, {lit(lo)}, {lit(hi)}) == Some(v as int) // [C07]
{{ shape_{k}(); digs_{k}(); assert({max(hi, -lo)} < pow(10, {n + 1})) by (compute); // [C07]
  nz_round_trip(v as int, {s}, dcls_{k}(), {n}nat, plus, {lit(lo)}, {lit(hi)}); // [C07]
}}
proof fn only_{k}(s: Seq<char>) ensures lang({T}, s) ==> nz_text(s, {s}, dcls_{k}(), {n}int) // [C07]
{{ shape_{k}(); digs_{k}(); lang_nz({s}, dcls_{k}(), {n}nat, s); }}
'''
    if t == 'bool': return f'''proof fn shape_{k}() ensures {T} == bool_re()
{{ reveal(term_{k});
  assert({T} == bool_re()) by (compute); // [SHAPE]
}}
proof fn values_{k}(s: Seq<char>) ensures lang({T}, s) <==> is_word(s, w_true(), false) || is_word(s, w_false(), false) // [C07]
{{ shape_{k}(); lang_bool(s); }}
'''
    if t == 'char': return f'''proof fn shape_{k}() ensures {T} == Re::Cls(dot_cls())
{{ reveal(term_{k});
  assert({T} == Re::Cls(dot_cls())) by (compute); // [SHAPE]
}}
proof fn values_{k}(s: Seq<char>) ensures lang({T}, s) <==> s.len() == 1 && s[0] != '\\n' // [C07]
{{ shape_{k}(); lang_dot(s); }}
'''
    if t in ('String', 'str', 'std::path::PathBuf'): return f'''proof fn shape_{k}() ensures {T} == Re::Rep(Box::new(Re::Cls(dot_cls())), 1, None)
{{ reveal(term_{k});
  assert({T} == Re::Rep(Box::new(Re::Cls(dot_cls())), 1, None)) by (compute); // [SHAPE]
}}
proof fn values_{k}(s: Seq<char>) ensures lang({T}, s) <==> s.len() >= 1 && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '\\n' // [C07]
{{ shape_{k}(); lang_dots(s); }}
'''
    if t in ('f32', 'f64', 'FullF32', 'FullF64'):
        p = 'C18' if 'Full' in t else 'C08'
        o = f'''proof fn shape_{k}() ensures {T} == float_re(dcls_{k}())
{{ reveal(term_{k});
  assert({T} == float_re(dcls_{k}())) by (compute); // [SHAPE]
}}
proof fn values_{k}(s: Seq<char>) ensures float_text(s) ==> lang({T}, s), float_shown(s) ==> lang({T}, s) // [{p}]
{{ shape_{k}(); digs_{k}(); if float_shown(s) {{ shown_in_grammar(s); }} if float_text(s) {{ float_ok(dcls_{k}(), s); }} }}
'''
        if 'Full' in t: o += f'''/// C18: exactly what the wrapped type matches
proof fn same_{k}(s: Seq<char>) ensures lang({T}, s) <==> lang(term_{t[4:].lower()}(), s) // [C18]
{{ shape_{k}(); shape_{t[4:].lower()}();
  assert(dcls_{k}() == dcls_{t[4:].lower()}()) by (compute); // [SHAPE]
}}
'''
        return o
    if t == 'HexNumber': return f'''proof fn shape_{k}() ensures {T} == hex_re()
{{ reveal(term_{k});
  assert({T} == hex_re()) by (compute); // [SHAPE]
}}
proof fn values_{k}(s: Seq<char>) ensures lang({T}, s) <==> hex_text(s) // [C18]
{{ shape_{k}(); lang_hex(s); }}
'''
    raise KeyError(t)
def props(t): return {'f32': 'C08 C18', 'f64': 'C08 C18', 'FullF32': 'C18', 'FullF64': 'C18', 'HexNumber': 'C18'}.get(t, 'C07')
def ident(t): return t.split('::')[-1]

def write_unit(hunter, build, name, pid):
    d = f'{build}/{name}_d'
    os.makedirs(d, exist_ok=True)
    json.dump([dict(name='c', kind='consts', text=''), dict(name='d', kind='hir', text='\\d')], open(d + '/in.json', 'w'))
    subprocess.run([hunter, 'emit', d + '/in.json', d + '/out.json'], check=True, timeout=120)
    out = json.load(open(d + '/out.json'))
    consts, dig = out['c']['consts'], CLS.match(out['d']['term']).group(1)
    ascii_dig = '(48u32, 57u32)'
    bad, body, names = [], '', {}
    def cls(text):
        """a name for a class of digits"""
        if text not in names:
            n = names[text] = f'digs{len(names)}'
            r = [tuple(map(int, x)) for x in re.findall(r'\((\d+)u32, (\d+)u32\)', text)]
        return names[text] + '()'
    for t, c in consts.items():
        k = ident(t)
        if 'term' not in c: bad.append((f'<{t} as RegexRepresentation>::REGEX = {c["regex"]}', 'not a regex: ' + c.get('error', '')[:300], None)); continue
        term = c['term']
        m = re.findall(r'Some\((\d+)nat\)', term)
        n = int(m[-1]) if m else 1
        used = dig if dig in term else ascii_dig
        dn = cls(used)
        body += f'#[verifier::opaque] pub open spec fn term_{k}() -> Re {{ {term.replace("seq![" + used + "]", dn)} }} // {t}: {json.dumps(c["regex"])}\npub open spec fn dcls_{k}() -> Seq<(u32, u32)> {{ {dn} }}\nproof fn digs_{k}() ensures dig_class(dcls_{k}()) {{ ok_{dn}; }}\n'
        body += f'''/// C11: no group of its own, so one capture per placeholder is the right count
proof fn groups_{k}() ensures re_caps(term_{k}()) == 0 // [C11]
{{ reveal(term_{k}); assert(re_caps(term_{k}()) == 0) by (compute); }} // [C11]
'''
        if pid is None or pid in props(t): body += obligations(t, n)
    defs = ''
    for text, n in names.items():
        defs += f'''pub open spec fn {n}() -> Seq<(u32, u32)> {{ seq![{text}] }}
proof fn ok_{n}() ensures dig_class({n}())
{{ assert({n}().len() > 0 && {n}()[0] == (48u32, 57u32) && los_ge({n}(), {n}().len() as int, 48)) by (compute); // [SHAPE]
  dig_class_ok({n}()); }}
'''
    t = ''.join(f'//@include {HERE}/contracts/{f}\n' for f in ('shims.vrs', 'regex_lang.vrs', 'radix_spec.vrs', 'consts_spec.vrs'))
    open(f'{d}/{name}.vrs', 'w').write(t + 'verus! {\n' + defs + body + '} // verus!\nfn main() {}\n')
    return f'{d}/{name}.vrs', [], bad

FLOAT = r'[+-]?(?i-u:inf|infinity|nan|(?:[0-9]+|[0-9]+\.[0-9]*|[0-9]*\.[0-9]+)(?:e[+-]?[0-9]+)?)'
HEX = '(?:0[xX])?[0-9a-fA-F]+'
def hunt(hunter, build, pid):
    """inputs on which a constant breaks the property (exact: product of the automata; bounded: boundary values)"""
    d = f'{build}/consts_hunt'
    os.makedirs(d, exist_ok=True)
    def emit(jobs):
        json.dump(jobs, open(d + '/in.json', 'w'))
        subprocess.run([hunter, 'emit', d + '/in.json', d + '/out.json'], check=True, timeout=300)
        return json.load(open(d + '/out.json'))
    consts = emit([dict(name='c', kind='consts', text='')])['c']['consts']
    jobs, what, vals = [], {}, {}
    def inc(name, sub, sup, why): jobs.append(dict(name=name, kind='included', text=json.dumps(dict(sub=sub, sup=sup)))); what[name] = why
    for t, c in consts.items():
        if pid not in props(t).split() or 'term' not in c: continue
        r, k = c['regex'], ident(t)
        b = t[7:].lower() if t.startswith('NonZero') else t
        if b in INT:
            lo, hi = lim(b); sg = '[+-]?' if lo < 0 else r'\+?'
            n = len(str(hi))
            inc(k + ':low', sg + ('[1-9][0-9]{0,%d}' if b != t else '(?:0|[1-9][0-9]{0,%d})') % (n - 2), r, f'{t}: the text of a value (Display, with or without a plus sign) is not matched')
            inc(k + ':up', r, sg + r'\d+', f'{t}: matches a text that is not an optional sign and digits')
            xs = {hi, hi - 1, 10 ** (n - 1), 1, lo, lo + 1, -1 if lo < 0 else 1} | ({0} if b == t else set())
            xs = sorted(x for x in xs if x or b == t)
            vals[k] = [str(x) for x in xs] + ['+%d' % x for x in xs if x >= 0]
            jobs.append(dict(name=k + ':vals', kind='matches', text=json.dumps(dict(regex=r, inputs=vals[k]))))
        elif t == 'bool': inc(k + ':low', 'true|false', r, 'bool: the text of a value is not matched')
        elif t == 'char': inc(k + ':low', r'[^\n]', r, 'char: the text of a value is not matched')
        elif t in ('String', 'str', 'std::path::PathBuf'): inc(k + ':low', r'[^\n]+', r, f'{t}: a single line is not matched')
        elif t in ('f32', 'f64'):
            if pid == 'C08': inc(k + ':low', FLOAT, r, f'{t}: a text of the documented float grammar is not matched')
        elif t == 'HexNumber':
            inc(k + ':low', HEX, r, 'HexNumber: hex digits with an optional prefix are not matched'); inc(k + ':up', r, HEX, 'HexNumber: matches a text that is not hex digits with an optional prefix')
        else:
            w = consts[t[4:].lower()]['regex']
            inc(k + ':low', w, r, f'{t}: does not match what the wrapped type matches'); inc(k + ':up', r, w, f'{t}: matches what the wrapped type does not')
    out, found = emit(jobs), []
    for j in jobs:
        o = out[j['name']]; k = j['name'].split(':')[0]
        rx = next(c['regex'] for t, c in consts.items() if ident(t) == k)
        prog = f'<{k} as RegexRepresentation>::REGEX = {json.dumps(rx)}'
        if j['kind'] == 'included' and o['witness'] is not None: found.append(dict(program=prog, input=o['witness'], what=what[j['name']]))
        if 'matches' in o: found += [dict(program=prog, input=v, what=f'{k}: the text of a value is not matched') for v, m in zip(vals[k], o['matches']) if not m]
        if 'error' in o: found.append(dict(program=prog, input='(any)', what='not a regex: ' + o['error'][:200]))
    n = sum(len(v) for v in vals.values()) + len(what)
    return dict(found=found, evaluations=n, distinct_nontrivial=n, samples=[dict(input=v[0], program=k) for k, v in list(vals.items())[:3]] or [dict(program=k, input=w) for k, w in list(what.items())[:3]])

if __name__ == '__main__':
    sys.path.insert(0, HERE + '/tools')
    import prove
    tpl, files, bad = write_unit(HERE + '/build/target/debug/hunter', HERE + '/build/v', 'regex_consts', None)
    print(bad)
    for q in ('C07', 'C08', 'C18'): print(q, hunt(HERE + '/build/target/debug/hunter', HERE + '/build/v', q))
    os.environ.setdefault('VX_BIN', HERE + '/build/target-vx/debug/vx')
    prove.show(prove.run_unit('regex_consts', os.environ.get('REPO', '/repo'), HERE + '/build/v', tpl=tpl))
