"""The standard library's UTF-8 check, copied from the toolchain's source into verus/std/utf8.rs.

Rewrites: attributes and comments dropped, `const fn` in the function with loops to `fn`; the
alignment of the text to any number; reads of two words through a raw pointer to a function whose
contract is the eight bytes in little-endian order; `usize::repeat_u8` to its value (in the template);
`String { vec }` to a function whose contract is that a string is its bytes. Contracts, loop
invariants and proof blocks are inserted. A rewrite that does not match raises, and the check then
records that the source was not verified.
"""
import os, re, subprocess


def item(src, head):
    a = src.index(head)
    if 'fn ' not in head:
        return src[a:src.index(';\n', a) + 2]
    d = 0
    for j in range(src.index('{', a), len(src)):
        d += {'{': 1, '}': -1}.get(src[j], 0)
        if d == 0 and src[j] == '}':
            return src[a:j + 1]


def once(s, a, b):
    if s.count(a) != 1:
        raise ValueError('%d places for %r' % (s.count(a), a))
    return s.replace(a, b)


def between(s, pat, repl):
    m = re.findall(pat, s, re.S)
    if len(m) != 1:
        raise ValueError('%d places for %r' % (len(m), pat))
    return re.sub(pat, lambda m: repl(m) if callable(repl) else repl, s, flags=re.S)


BLOCKS = 'ascii_block_size == 16, blocks_end == (if len >= 16 { len - 15 } else { 0int }),'
SEEN = 'start <= index <= len, len == v@.len(), forall|k: int| start <= k < index ==> v@[k] <= 0x7f,'


def validation(src):
    f = re.sub(r'//[^\n]*', '', item(src, 'pub(super) const fn run_utf8_validation'))
    f = between(f, r'const_eval_select!\(.*?\n    \);', 'alignment(v);')
    f = once(f, 'const USIZE_BYTES: usize = size_of::<usize>();', 'const USIZE_BYTES: usize = 8;')
    f = once(f, 'align.wrapping_sub(index).is_multiple_of(USIZE_BYTES)', 'is_multiple_of(align.wrapping_sub(index), USIZE_BYTES)')

    def block(m):
        b = once(m.group(1), 'contains_nonascii(*block)', 'contains_nonascii(word(v, index))')
        b = once(b, 'contains_nonascii(*block.add(1))', 'contains_nonascii(word(v, index + USIZE_BYTES))')
        return b + '\nproof { word_ascii(v@, index as int); word_ascii(v@, index + 8); }\n'
    f = between(f, r'unsafe \{\s*let block = ptr\.add\(index\) as \*const usize;(.*?)\n                    \}\n', block)
    f = once(f, 'let ptr = v.as_ptr();', 'let ghost start = index as int;')
    f = once(f, 'pub(super) const fn run_utf8_validation(v: &[u8]) -> Result<(), Utf8Error> {', '''pub fn run_utf8_validation(v: &[u8]) -> (r: Result<(), Utf8Error>)
    ensures r is Ok <==> valid_utf8(v@),
{
    proof { assert(v@.skip(0) =~= v@); }''')
    f = once(f, 'while index < len {\n', '''while index < len
        invariant index <= len, len == v@.len(), valid_utf8(v@) <==> left(v@, index as int), %s
        decreases len - index,
    {
        proof { step(v@, index as int); signed_tail(); }
        let ghost s = v@.skip(index as int);
''' % BLOCKS)
    f = once(f, 'while index < blocks_end {', 'while index < blocks_end\ninvariant %s %s\ndecreases len - index,\n{' % (SEEN, BLOCKS))
    f = between(f, r'while index < len && v\[index\] < 128 (\{[^}]*\})', lambda m: 'while index < len && v[index] < 128\ninvariant %s start < len, v@[start] < 128,\nensures index > start,\ndecreases len - index,\n%s\nproof { ascii(v@, start, index as int); }' % (SEEN, m.group(1)))
    return once(f, 'Ok(())\n}', 'proof { assert(v@.skip(index as int) =~= Seq::<u8>::empty()); }\nOk(())\n}')


def generate(template, library):
    read = lambda p: open(os.path.join(library, p)).read()
    val, conv, string = read('core/src/str/validations.rs'), read('core/src/str/converts.rs'), read('alloc/src/string.rs')
    once(val, 'const NONASCII_MASK: usize = usize::repeat_u8(0x80);', '')
    strip = lambda s: re.sub(r'//[^\n]*', '', s)
    parts = {
        'contains_nonascii': once(item(val, 'const fn contains_nonascii'), '-> bool {', '-> (r: bool)\n    ensures r == (x & 0x8080808080808080usize != 0),\n{'),
        'UTF8_CHAR_WIDTH': once(strip(item(val, 'const UTF8_CHAR_WIDTH')), '&[u8; 256] = &[', '[u8; 256] = ['),
        'utf8_char_width': once(item(val, 'pub const fn utf8_char_width'), '-> usize {', '-> (r: usize)\n    ensures r == width(b),\n{'),
        'run_utf8_validation': validation(val),
        'str_from_utf8': once(once(strip(item(conv, 'pub const fn from_utf8(')), 'pub const fn from_utf8(v: &[u8]) -> Result<&str, Utf8Error> {',
            'pub fn str_from_utf8(v: &[u8]) -> (r: Result<&str, Utf8Error>)\n    ensures r is Ok <==> valid_utf8(v@),\n{'),
            'unsafe { from_utf8_unchecked(v) }', 'unsafe { str::from_utf8_unchecked(v) }'),
        'string_from_utf8': once(once(once(strip(item(string, 'pub fn from_utf8(vec')), 'pub fn from_utf8(vec: Vec<u8>) -> Result<String, FromUtf8Error> {',
            'pub fn string_from_utf8(vec: Vec<u8>) -> (r: Result<String, FromUtf8Error>)\n    ensures match r { Ok(s) => valid_utf8(vec@) && s@ == decode_utf8(vec@), Err(_) => !valid_utf8(vec@) },\n{'),
            'str::from_utf8(&vec)', 'str_from_utf8(&vec)'), 'String { vec }', 'string_of(vec)'),
    }
    out = open(template).read()
    for k, v in parts.items():
        out = once(out, '//@ %s\n' % k, v + '\n')
    return out


def library():
    root = subprocess.run(['rustc', '--print', 'sysroot'], stdout=subprocess.PIPE, env=dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu')).stdout.decode().strip()
    return os.path.join(root, 'lib/rustlib/src/rust/library')


if __name__ == '__main__':
    print(generate(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'verus/std/utf8.rs'), library()))
