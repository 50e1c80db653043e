"""Which proof units and which hunters belong to which property."""
import os, subprocess
import consts, emitted, runtime

FP = ['format_parser']
RADIX = [f'emitted_radix_{t}' for t in emitted.INTS]
PROPS = {
    'C01': dict(units=FP + ['str_lit', 'macros'], hunts=[('fmt', 'C01'), ('e2e', 'C01')]),
    'C02': dict(units=FP + ['str_lit'], hunts=[('fmt', 'C02')]),
    'C03': dict(units=FP + ['str_lit'], hunts=[('fmt', 'C03'), ('e2e', 'C03')]),
    'C04': dict(units=FP + ['str_lit', 'macros'], hunts=[('fmt', 'C04'), ('e2e', 'C04')]),
    'C05': dict(units=RADIX, hunts=[('fmt', 'C05'), ('e2e', 'C05')]),
    'C06': dict(units=RADIX, hunts=[('e2e', 'C06')]),
    'C07': dict(units=['regex_consts', 'runtime'], hunts=[('consts', 'C07'), ('e2e', 'C07')]),
    'C08': dict(units=['regex_consts', 'runtime'], hunts=[('consts', 'C08'), ('e2e', 'C08')]),
    'C09': dict(units=['emitted_sscanf', 'macros'], hunts=[('fmt', 'C09'), ('e2e', 'C09')]),
    'C10': dict(units=['emitted_struct', 'derive'], hunts=[('derive', 'C10'), ('e2e', 'C10')]),
    'C11': dict(units=['emitted_sscanf', 'emitted_struct', 'emitted_enum', 'regex_consts', 'runtime', 'macros', 'derive'] + FP, hunts=[('fmt', 'C11'), ('e2e', 'C11')]),
    'C12': dict(units=['emitted_enum', 'derive'], hunts=[('e2e', 'C12')]),
    'C13': dict(units=['emitted_autogen', 'attributes', 'derive'], hunts=[('derive', 'C13'), ('e2e', 'C13')]),
    'C14': dict(units=['emitted_sscanf', 'emitted_struct', 'emitted_enum', 'runtime'], hunts=[('e2e', 'C14')]),
    'C15': dict(units=['runtime'], hunts=[('e2e', 'C15')]),
    'C16': dict(units=['emitted_str', 'types', 'macros', 'derive'], hunts=[('e2e', 'C16')]),
    'C17': dict(units=['attributes', 'derive'], hunts=[('derive', 'C17')]),
    'C18': dict(units=['regex_consts', 'runtime'], hunts=[('consts', 'C18'), ('e2e', 'C18')]),
    'C19': dict(units=['emitted_regex', 'macros'], hunts=[('e2e', 'C19')]),
    'C20': dict(units=FP + ['str_lit'], hunts=[('fmt', 'C20')]),
}
GEN = {'regex_consts': lambda run: consts.write_unit(run.hunter, run.build, 'regex_consts', run.pid), 'runtime': lambda run: runtime.write_unit(run.hunter, run.build)}
EXPANDED = ('attributes',)
def expanded(unit, run):
    """sscanf_macro with its own macro_rules! and derives expanded by the compiler, for the units that take functions from it"""
    if unit not in EXPANDED: return []
    f = f'{run.build}/expanded.rs'
    p = subprocess.run(['cargo', 'rustc', '--offline', '--manifest-path', os.environ.get('VERIF_REPO', '/repo') + '/sscanf_macro/Cargo.toml', '--target-dir', run.here + '/build/exp', '--lib', '--', '-Zunpretty=expanded'],
        env=dict(run.env, RUSTC_BOOTSTRAP='1'), capture_output=True, text=True, timeout=600)
    if p.returncode != 0 or not p.stdout: raise RuntimeError('sscanf_macro could not be expanded: ' + p.stderr[-400:])
    open(f, 'w').write(p.stdout)
    return [f'!expanded={f}']
def generated(unit): return unit in GEN or unit.split('@')[0] in emitted.GROUPS
def prepare(unit, run):
    """a unit over emitted code: (template, NAME=FILE arguments, programs the macros reject)"""
    if not run.build_hunter(): raise RuntimeError('the macros cannot be run in process on this tree')
    if unit in GEN: return GEN[unit](run)
    base, _, seed = unit.partition('@')
    cases = emitted.random_group(int(seed), base) if seed else emitted.GROUPS[base]()
    cases = [c for c in cases if run.pid in c.props.split()]
    return emitted.write_unit(cases, run.hunter, run.build, unit.replace('@', '_r'))

COMMON = 'Every obligation is regenerated from /repo by rs/vx on each run; trusted: vx\'s rewriting rules, Verus/Z3, and the contracts of std, proc_macro, syn and regex listed as trusted_base in the evidence. '
EMIT = COMMON + 'The functions under contract are the ones the macros emit for a fixed, stated family of programs (the macros are run on this tree); each is proved for every input, every type that keeps the trait contract and every match the regex crate can report. What repeats - placeholders, fields, variants - is proved for any number of them: the emitted code of one is cut out where the macro pastes the list and replaced by a verified function over a list of n (contracts/compose.vrs). Trusted: quote! writes its fixed text alike in every expansion; random further programs (thorough tier, compiled programs) look at that, bounded. '
RADIXN = COMMON + 'All 12 integer types x 41 options: the macro is run on each (its domain is finite), the regex text it emits is parsed by regex-syntax on this run, the language of the resulting term is proved to be exactly the numerals (every string), every value of the type is proved to be matched, and the emitted conversion is proved to yield the exact value or an error for every numeral. Trusted: regex-syntax\'s parse, that a capture group\'s text is in the language of its sub-regex, the contract of std\'s from_str_radix; usize is 64 bits wide here. '
CONST = COMMON + "The REGEX constants are read from the compiled crate of this tree and parsed by regex-syntax on this run; what the resulting term matches is proved for every string. The conversion is FromStr's by the contract of the blanket implementation, proved on its body; that std's from_str reads back what Display prints is std's contract. "
MACRO = 'The functions of the sscanf!-style macros (generate_regex, find_ph_type, RegexParts::new, the number of captures, the error builder, the parsers of their arguments, the entry points) are proved for every format, every list of types and every input of the macro: what is accepted, and which pieces are pasted in which order; quote! is looked at as the sequence of what is pasted, its fixed text is what the emitted programs are about. '
DERIVE = 'parse_format, parse_struct, parse_enum, merge_lifetimes and the derive macro itself are proved for every attribute, list of fields and list of variants: which field each placeholder fills, every rejection, the order of the conversions, the number of captures, the lifetimes (trusted there: the meaning of an attribute list is joined by name to unit attributes, the fixed text of the emitted code is what the emitted_* units are about, the added lifetime name is fresh). '
NOTES = {
    'C01': COMMON + MACRO + 'Proved for every format text: each literal character is emitted as itself or, when regex-syntax calls it a meta character, escaped with a backslash; braces and escape sequences decode as documented.',
    'C02': COMMON + 'Proved for every format text: split into parts and placeholders, or rejected, exactly as the written grammar says, and no slice or assertion can panic.',
    'C03': COMMON + 'Proved for every format text: the regex text that is taken over, where it ends, and when it is rejected. Assumed: regex-syntax parses a regex the way the regex crate does.',
    'C04': COMMON + MACRO + 'Proved for every option text.',
    'C05': RADIXN, 'C06': RADIXN,
    'C07': CONST, 'C08': CONST, 'C18': CONST + 'from_str, ==, deref and deref_mut of the three wrappers are under contract themselves. ',
    'C15': COMMON + 'The default from_str and the emitted code of sscanf!(s, "{T}") are proved to yield the same function of the input, for every T that keeps the trait contract. Trusted: for every regex T, ^(?:T)$ and ^(T)$ match the same inputs with the same groups.',
    'C09': EMIT + MACRO, 'C10': EMIT + DERIVE, 'C11': EMIT + MACRO + DERIVE, 'C12': EMIT + DERIVE, 'C13': EMIT + DERIVE + 'The format made from the name of a variant is proved for every name and every kind of autogen (what a case does to a name is convert_case\'s).', 'C14': EMIT, 'C19': EMIT + MACRO,
    'C16': EMIT + MACRO + DERIVE + 'Which types count as str or Cow<str> (is_str_path, get_str, get_cow_str, TypeKind::from_ty, Type::from_ty, Type::parse, Type::from_str) is proved for every syn::Type; trusted there: the model of syn\'s types and that tokens print equal text exactly when they are equal. ',
    'C17': COMMON + DERIVE + 'Proved for every list of attributes: which arguments are read from it, that an unknown, misplaced, duplicated, conflicting or malformed one is an error, and which kind with which value the accepted one stands for (from_attrs_with, the four from_attribute functions, the autogen names). syn\'s parsers, quote! and HashMap are modelled by contracts; the table is the one the compiler expands declare_attr! to.',
    'C20': COMMON + 'Proved: which byte range of the literal every error is about, and that the message underlines that part (or the compiler is given it). Trusted: display widths (unicode-width).',
}
NOT_APPLICABLE = {}
