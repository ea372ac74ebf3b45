"""CUDA kernel -> C++: inline PTX statements are translated instruction by instruction (PTX ISA semantics), the rest is left as it is."""
import re

TY = {'b': 'uint', 'u': 'uint', 's': 'int'}


def ctype(t):
    if t == 'pred':
        return 'bool'
    return '%s%s_t' % (TY[t[0]], t[1:])


def strings(s):
    """-> (concatenated literal or None, rest) for the adjacent string literals s starts with"""
    out, any_ = '', False
    while True:
        s = re.sub(r'^(\s|#[^\n]*\n)+', '', s)
        m = re.match(r'"((?:[^"\\]|\\.)*)"', s)
        if not m:
            return (out if any_ else None), s
        any_ = True
        out += m.group(1).replace('\\n', '\n').replace('\\t', ' ').replace('\\"', '"')
        s = s[m.end():]


def balanced(s, i):
    """index after the parenthesis closing the one at s[i]"""
    d, q = 0, False
    while i < len(s):
        c = s[i]
        if q:
            if c == '\\':
                i += 1
            elif c == '"':
                q = False
        elif c == '"':
            q = True
        elif c == '(':
            d += 1
        elif c == ')':
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    raise ValueError('unbalanced asm')


def operand(x, t=None):
    x = x.strip()
    m = re.match(r'^%(\d+)$', x)
    if m:
        v = '_op' + m.group(1)
    elif re.match(r'^%?[A-Za-z_$][\w$]*$', x):
        v = '_r_' + x.lstrip('%').replace('$', '_')
    elif re.match(r'^-?(0[xX][0-9a-fA-F]+|\d+)U?$', x):
        v = x.rstrip('U') + ('ull' if not x.startswith('-') else 'll')
    else:
        raise ValueError('PTX operand ' + x)
    return '(%s)%s' % (ctype(t), v) if t else v


def split(a):
    out, d, cur = [], 0, ''
    for c in a:
        d += c in '{[('
        d -= c in '}])'
        if c == ',' and not d:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    return out + ([cur.strip()] if cur.strip() else [])


CMP = {'eq': '==', 'ne': '!=', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>=', 'lo': '<', 'ls': '<=', 'hi': '>', 'hs': '>='}
BIN = {'add': '+', 'sub': '-', 'and': '&', 'or': '|', 'xor': '^'}


def insn(op, a):
    p = op.split('.')
    k, t = p[0], p[-1]
    w = int(t[1:]) if t[1:].isdigit() else 0
    if k == '' or k == 'reg':
        return ''
    d = lambda v: '%s = (std::remove_reference_t<decltype(%s)>)(%s);' % (operand(a[0]), operand(a[0]), v)
    if k == 'setp':
        return d('%s %s %s' % (operand(a[1], t), CMP[p[1]], operand(a[2], t)))
    if k == 'selp':
        return d('%s ? %s : %s' % (operand(a[3]), operand(a[1], t), operand(a[2], t)))
    if k in ('mov', 'cvta'):
        if a[0].startswith('{'):
            parts = split(a[0][1:-1])
            e = w // len(parts)
            return '{ const uint64_t _v = %s; %s }' % (operand(a[1], t), ' '.join('%s = (uint%d_t)(_v >> %d);' % (operand(x), e, e * i) for i, x in enumerate(parts)))
        if a[1].startswith('{'):
            parts = split(a[1][1:-1])
            e = w // len(parts)
            return d(' | '.join('(uint64_t)(uint%d_t)%s << %d' % (e, operand(x), e * i) for i, x in enumerate(parts)))
        return d(operand(a[1], t) if t != 'pred' else operand(a[1]))
    if k == 'prmt':
        return d('ptx_prmt(%s, %s, %s)' % tuple(operand(x, 'u32') for x in a[1:4]))
    if k == 'not':
        return d('!' + operand(a[1]) if t == 'pred' else '(%s)~%s' % (ctype(t), operand(a[1], t)))
    if k == 'neg':
        return d('(%s)-%s' % (ctype(t), operand(a[1], t)))
    if k in BIN and (len(p) == 2):
        return d('(%s)(%s %s %s)' % (ctype(t), operand(a[1], t), BIN[k], operand(a[2], t)))
    if k in ('mul', 'mad') and p[1] == 'lo':
        return d('(%s)((uint64_t)%s * %s%s)' % (ctype(t), operand(a[1], t), operand(a[2], t), ' + ' + operand(a[3], t) if k == 'mad' else ''))
    if k in ('mul', 'mad') and p[1] == 'wide':
        return d('(uint64_t)%s * %s%s' % (operand(a[1], t), operand(a[2], t), ' + ' + operand(a[3]) if k == 'mad' else ''))
    if k in ('min', 'max'):
        return d('%s %s %s ? %s : %s' % (operand(a[1], t), '<' if k == 'min' else '>', operand(a[2], t), operand(a[1], t), operand(a[2], t)))
    if k == 'shl':
        return d('ptx_shl<%s>(%s, %s)' % (ctype(t), operand(a[1], t), operand(a[2], 'u32')))
    if k == 'shr':
        return d('ptx_shr<%s>(%s, %s)' % (ctype(t), operand(a[1], t), operand(a[2], 'u32')))
    if k == 'cvt':
        return d('(%s)%s' % (ctype(p[-2]), operand(a[1], p[-1])))
    if k in ('ld', 'st'):
        m = re.match(r'^\[\s*([^+\]]+?)\s*(?:\+\s*(-?\w+))?\s*\]$', a[1 if k == 'ld' else 0])
        ad = '(%s + (%s))' % (operand(m.group(1), 'u64'), m.group(2) or '0')
        if k == 'ld':
            return d('ptx_ld<%s>%s' % (ctype(t), ad))
        return 'ptx_st<%s>(%s, %s);' % (ctype(t), ad, operand(a[1], t))
    raise ValueError('PTX instruction ' + op)


def ptx(text):
    out = []
    text = re.sub(r'//[^\n]*|/\*.*?\*/', '', text, flags=re.S)
    # braces of the statement block, not those of vector operands
    for st in re.split(r';', text):
        st = st.strip()
        while st and st[0] in '{}':
            out.append(st[0])
            st = st[1:].strip()
        if not st:
            continue
        pred = ''
        m = re.match(r'^@(!?)(%?\w+)\s+(.*)$', st, re.S)
        if m:
            pred, st = 'if (%s%s) ' % (m.group(1), operand(m.group(2))), m.group(3)
        m = re.match(r'^\.reg\s+\.(\w+)\s+(.*)$', st, re.S)
        if m:  # registers start with arbitrary contents
            for r in split(m.group(2)):
                out.append('%s %s = (%s)0xa5c396f05a3c690full;' % (ctype(m.group(1)), operand(r), ctype(m.group(1))))
            continue
        m = re.match(r'^([\w.]+)\s*(.*)$', st, re.S)
        if m.group(1) in ('bar.sync', 'membar.gl', 'membar.cta'):
            continue
        out.append('%s{ %s }' % (pred, insn(m.group(1), split(m.group(2)))))
    return '\n'.join(out)


def asm(body):
    """C++ for asm(body)"""
    text, rest = strings(body)
    if text is None:
        raise ValueError('asm without text')
    decl, n = [], 0
    for sec in range(3):
        rest = re.sub(r'^(\s|#[^\n]*\n)+', '', rest)
        if not rest.startswith(':'):
            break
        rest = rest[1:]
        while sec < 2:
            rest = re.sub(r'^(\s|,|#[^\n]*\n)+', '', rest)
            m = re.match(r'"([+=&]*)([lrhc])"\s*', rest)
            if not m:
                break
            e = balanced(rest, m.end())
            x = rest[m.end():e]
            rest = rest[e:]
            ty = {'l': 'uint64_t', 'r': 'uint32_t', 'h': 'uint16_t', 'c': 'uint8_t'}[m.group(2)]
            if m.group(1):
                decl.append('auto &_op%d = %s;' % (n, x))
            else:
                decl.append('const %s _op%d = (%s)%s;' % (ty, n, ty, x))
            n += 1
    return '{ %s\n%s\n}' % ('\n'.join(decl), re.sub(r'(%[\w]*)%', r'\1', ptx(text.replace('%%', '%'))))


def translate(src):
    """preprocessed CUDA -> C++"""
    out, i = '', 0
    for m in re.finditer(r'\b(?:asm|__asm__)\b(?:\s|volatile|__volatile__)*\(', src):
        if m.start() < i:
            continue
        e = balanced(src, m.end() - 1)
        t = asm(src[m.end():e - 1])
        out += src[i:m.start()] + t.replace('\n', ' ')
        out += '\n' * src[m.start():e].count('\n')
        i = e
    return out + src[i:]
