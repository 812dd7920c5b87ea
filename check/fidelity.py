"""The extracted text as a program, for comparison with the program it was extracted from.

The verified text is compiled as it stands, proofs erased, with these additions: `derive(Debug)`, which
the extraction drops; the three bodies that are verified elsewhere (`f32::parse` and `f64::parse` with
Kani, `Instr::parse` as the free function `instr_parse`); and a main function. It reads lines of
`search dump` and prints those on which it disagrees.
"""
import os
import re

MAIN = '''
impl std::fmt::Debug for crate::binary::Byte {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "0x{:02X}", self.0) }
}
fn lines() {
    std::panic::set_hook(Box::new(|_| ()));
    let (mut n, mut ok) = (0, 0);
    for l in std::io::stdin().lines() {
        let l = l.unwrap();
        let f: Vec<&str> = l.split('\\t').collect();
        let b: Vec<u8> = (0..f[1].len() / 2).map(|i| u8::from_str_radix(&f[1][2 * i..2 * i + 2], 16).unwrap()).collect();
        let o = api::new::line(f[0], &b);
        n += 1;
        if o.starts_with("true") { ok += 1 }
        if o != f[2] { println!("{}\\t{}\\t{}\\t{}", f[0], f[1], f[2], o) }
    }
    println!("done {} {}", n, ok);
}
fn main() { std::thread::Builder::new().stack_size(256 << 20).spawn(lines).unwrap().join().unwrap() }
'''


def once(pattern, by, text):
    text, n = re.subn(pattern, by, text, count=1, flags=re.S)
    if n != 1:
        raise ValueError('nothing matches ' + pattern)
    return text


def program(gen, api):
    a = gen.index('pub mod structure')
    z = gen.rindex('fn main() {}')
    head, t, tail = gen[:a], gen[a:z], gen[z + len('fn main() {}'):]
    t = re.sub(r'(?m)^\s*pub (struct|enum) (?!Byte\b)\w+', lambda m: '#[derive(Debug)]\n' + m.group(0), t)
    t = once(r'(impl WasmBinaryParse for instr::Instr \{.*?)\{ unimplemented!\(\) \}', r'\1{ instr_parse(bin) }', t)
    for f, k in (('f32', 4), ('f64', 8)):
        t = once(r'(impl WasmBinaryParse for %s \{.*?)\{ unimplemented!\(\) \}' % f,
                 r'\1{ let mut b = [0u8; %d]; for x in b.iter_mut() { *x = bin.parse::<Byte>()?.0 } Ok(%s::from_le_bytes(b)) }' % (k, f), t)
    api = re.sub(r'(?m)^api!\(.*\n', '', re.sub(r'(?m)^//!', '//', api))
    for x, y in (('$c::', 'crate::'), ('($m:ident, $c:ident)', '($m:ident)'), ('b.iter().copied()', 'crate::model::byte_source(b)'),
                 ('it.len()', '(it.s.len() - it.pos)'), ('WasmBinary, ', ''), ('crate::arm();', ''), ('crate::disarm()', '0'),
                 ('use super::Out;', 'use super::Out; use crate::binary::core::traits::WasmBinaryExt;')):
        if x not in api:
            raise ValueError('not in api.rs: ' + x)
        api = api.replace(x, y)
    return head + t + 'mod api {\n' + api + 'api!(new);\n}\n' + MAIN + tail


def compare(gen, api, binary, seed, count, tmp, sh):
    """(record for the evidence, disagreements)"""
    d = os.path.join(tmp, 'program')
    os.makedirs(d, exist_ok=True)
    try:
        open(os.path.join(d, 'program.rs'), 'w').write(program(gen, api))
    except ValueError as x:
        return {'compared': 0, 'why_not': str(x)}, []
    rc, o, e = sh(['verus', 'program.rs', '--compile', '--no-verify', '-o', 'program'], 120, cwd=d)
    if rc != 0:
        return {'compared': 0, 'why_not': 'the extracted text does not compile as a program: ' + e[-600:]}, []
    rc, o, e = sh(['sh', '-c', '"$0" dump %d %d > dump && ./program < dump' % (seed, count), binary], 120, cwd=d)
    ls = o.strip().split('\n')
    m = re.match(r'done (\d+) (\d+)$', ls[-1])
    if rc != 0 or not m:
        return {'compared': 0, 'why_not': 'did not finish (%s) %s' % (rc, e[-300:])}, []
    rec = {'what': 'the verified text compiled and run against the tree under check on the same inputs; tests the extraction, not part of the proof',
           'compared': int(m.group(1)), 'accepted': int(m.group(2)), 'disagreements': len(ls) - 1}
    return rec, ['the verified text and the program disagree: ' + l[:600] for l in ls[:-1]]
