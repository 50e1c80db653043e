"""Proof unit over src/ (contracts/runtime.vrs) together with the code emitted for sscanf!(input, "{A}")."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import emitted
from emitted import SscanfCase, Src, HERE

def write_unit(hunter, build, name='runtime'):
    case = SscanfCase('s_eq', '"{A}"', ['', ''], [Src('T', 'A')], props='C15')
    tpl, files, bad = emitted.write_unit([case], hunter, build, name)
    t = open(tpl).read()
    inc = ''.join(f'//@include {HERE}/contracts/{f}\n' for f in ('regex_lang.vrs', 'radix_spec.vrs', 'consts_spec.vrs', 'runtime.vrs'))
    eq = '''verus! {
/// C15: for any type, both yield what `parsed` says
pub proof fn same(s: Seq<char>) ensures s_eq::rx() == rx_macro::<A>() { assert(s_eq::rx() =~= rx_macro::<A>()); } // [C15]
pub fn both<'t>(input: &'t str) -> (r: (Result<A, crate::sscanf::Error>, Result<A, crate::sscanf::Error>)) ensures parsed::<A>(input@, r.0), parsed::<A>(input@, r.1) // [C15]
{ proof { same(input@); if matches(rx_macro::<A>(), input@) { macro_shape::<A>(input@); let g = groups(rx_macro::<A>(), input@); assert(g.skip(1) =~= g.subrange(1, 1 + A::n())); } } (s_eq::code::emitted(input), short_code::default_from_str::<A>(input)) }
} // verus!
'''
    i = t.rindex('fn main()')
    open(tpl, 'w').write(t[:i] + inc + eq + t[i:])
    return tpl, files, bad

if __name__ == '__main__':
    import prove
    tpl, files, bad = write_unit(HERE + '/build/target/debug/hunter', HERE + '/build/v')
    print(bad)
    os.environ.setdefault('VX_BIN', HERE + '/build/target/debug/vx')
    r = prove.run_unit('runtime', os.environ.get('REPO', '/repo'), HERE + '/build/v', tpl=tpl, extra_files=files)
    prove.show(r); print(r['out'][-int(os.environ.get('T', '0')):] if 'T' in os.environ else '')
