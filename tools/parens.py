"""Insert the parentheses TLA+ wants in chains of * and / (left association). In place."""
import re, sys
TOK = re.compile(r'\(\*.*?\*\)|\\\*[^\n]*|"(?:[^"\\]|\\.)*"|[A-Za-z0-9_]+(?:\.\d+)?|\\[A-Za-z]+|-\.|==|=>|->|\|->|<<|>>|/\\|\\/|=<|>=|/=|\.\.|[^\s]', re.S)
def run(s):
    toks = [(m.group(), m.start(), m.end()) for m in TOK.finditer(s)]
    toks = [t for t in toks if not (t[0].startswith('(*') or t[0].startswith('\\*'))]
    n = len(toks)
    OPEN = {'(': ')', '[': ']', '{': '}', '<<': '>>'}
    def close(i):
        d = 0
        while i < n:
            t = toks[i][0]
            if t in OPEN: d += 1
            elif t in OPEN.values():
                d -= 1
                if d == 0: return i
            i += 1
        raise SystemExit('unbalanced at %d' % i)
    KW = {'IF','THEN','ELSE','LET','IN','LAMBDA','CASE','OTHER','DOMAIN','UNION','SUBSET','EXCEPT','INSTANCE','LOCAL','EXTENDS','MODULE','VARIABLES','VARIABLE','CONSTANT','CONSTANTS','ASSUME','CHOOSE','ENABLED','UNCHANGED'}
    def primary(i):
        if i >= n: return None
        t = toks[i][0]
        if t in OPEN: j = close(i) + 1
        elif re.match(r'[A-Za-z0-9_"]', t) and t not in KW: j = i + 1
        else: return None
        while j < n and ((toks[j][0] in ('(', '[') and toks[j-1][0] not in KW) or (toks[j][0] == '.' and j + 1 < n)):
            if toks[j][0] == '.': j += 2
            else: j = close(j) + 1
        return j
    def factor(i):
        j = primary(i)
        if j is None: return None
        if j < n and toks[j][0] == '^':
            k = primary(j + 1)
            if k: j = k
        return j
    ins = []
    i = 0
    while i < n:
        j = factor(i)
        if j is None: i += 1; continue
        fs = [(i, j)]; ops = []
        while j < n and toks[j][0] in ('*', '/'):
            k = factor(j + 1)
            if k is None: break
            ops.append(toks[j][0]); fs.append((j + 1, k)); j = k
        for m in range(1, len(ops)):
            if ops[m] != ops[m-1] or ops[m] == '/':
                ins.append((toks[fs[0][0]][1], 0, '(')); ins.append((toks[fs[m][1]-1][2], 1, ')'))
        i += 1 if (toks[i][0] in OPEN or j == i + 1 or True) and False else 1
    # remove duplicates from chains seen again at later starts
    return ins
def apply(s):
    # a chain start is a factor not preceded by * or /
    toks = None
    ins = run2(s)
    out = []; last = 0
    for p, _, c in sorted(ins, key=lambda x: (x[0], -x[1])):
        out.append(s[last:p]); out.append(c); last = p
    return ''.join(out) + s[last:]
def run2(s):
    res = []
    toks = [(m.group(), m.start(), m.end()) for m in TOK.finditer(s)]
    toks = [t for t in toks if not (t[0].startswith('(*') or t[0].startswith('\\*'))]
    starts = {t[1]: k for k, t in enumerate(toks)}
    ins = run(s)
    # keep only insertions whose chain starts right after something other than * / ^ .
    k = 0
    while k < len(ins):
        a, b = ins[k], ins[k+1]
        i = starts[a[0]]
        prev = toks[i-1][0] if i else ''
        if prev not in ('*', '/', '^', '.') and not (toks[i][0] in ('(', '[') and re.match(r'[A-Za-z0-9_\])}]', prev) and prev not in ('IF','THEN','ELSE','IN','LAMBDA','LET','CASE')):
            res += [a, b]
        k += 2
    return res
for f in sys.argv[1:]:
    s = open(f).read()
    t = apply(s)
    if t != s: open(f, 'w').write(t); print('rewrote', f)
