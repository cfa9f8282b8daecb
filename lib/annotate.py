"""Mechanical extraction: copy a /repo source verbatim and insert loop
contracts after the loop headers of named functions (or function-like
macros).  The only other rewriting is  `do BODY while (C);`  ->
`for (_Bool vf_once = 1; vf_once || (C); vf_once = 0) BODY`  because the
verifier takes no contracts on do/while.  Line numbers are preserved."""
import re

class AttachError(Exception):
    pass

def mask(src):
    """blank out comments, strings and char literals, same length"""
    out = list(src)
    i, n = 0, len(src)
    def blank(a, b):
        for k in range(a, b):
            if out[k] != '\n':
                out[k] = ' '
    while i < n:
        c = src[i]
        if src.startswith('/*', i):
            j = src.find('*/', i + 2); j = n if j < 0 else j + 2
            blank(i, j); i = j
        elif src.startswith('//', i):
            j = i
            while j < n and src[j] != '\n':
                j += 1
            blank(i, j); i = j
        elif c == '"' or c == "'":
            j = i + 1
            while j < n and src[j] != c and src[j] != '\n':
                j += 2 if src[j] == '\\' else 1
            blank(i + 1, min(j, n)); i = min(j, n) + 1
        else:
            i += 1
    return ''.join(out)

def match(s, i, op, cl):
    d = 0
    for k in range(i, len(s)):
        if s[k] == op: d += 1
        elif s[k] == cl:
            d -= 1
            if d == 0: return k
    raise AttachError("unbalanced %s at %d" % (op, i))

def find_body(m, name):
    """[start,end) of the body of function or macro `name` in masked text"""
    mm = re.search(r'^[ \t]*#[ \t]*define[ \t]+%s\b' % re.escape(name), m, re.M)
    if mm:
        k = mm.end()
        while True:
            e = m.find('\n', k)
            if e < 0: return mm.end(), len(m)
            if m[:e].rstrip(' \t\r').endswith('\\'):
                k = e + 1
            else:
                return mm.end(), e
    for mm in re.finditer(r'\b%s[ \t\n]*\(' % re.escape(name), m):
        a = mm.end() - 1
        # must be at depth 0
        pre = m[:mm.start()]
        if pre.count('{') - pre.count('}') != 0:
            # tolerate extern "C" { style (masked string) wrappers
            if pre.count('{') - pre.count('}') != 1 or 'extern' not in pre:
                continue
        try:
            b = match(m, a, '(', ')')
        except AttachError:
            continue
        r = re.match(r'[\s]*(?:__attribute__\s*\(\([^;{]*\)\)\s*)?\{', m[b + 1:])
        if r:
            s = b + 1 + r.end() - 1
            return s, match(m, s, '{', '}') + 1
    raise AttachError("function %s not found" % name)

def loops(m, s, e):
    """list of loop headers in [s,e): (kind, kw_pos, insert_pos, extra)"""
    res = []
    dowhiles = {}
    for r in re.finditer(r'\b(for|while|do)\b', m[s:e]):
        p = s + r.start()
        kw = r.group(1)
        if kw == 'do':
            b = s + r.end()
            while m[b] in ' \t\n\\': b += 1
            if m[b] != '{': raise AttachError("do without block")
            be = match(m, b, '{', '}')
            w = re.match(r'[\s\\]*while[\s\\]*\(', m[be + 1:])
            if not w: raise AttachError("do without while")
            wp = be + 1 + w.end() - 1
            we = match(m, wp, '(', ')')
            wk = be + 1 + w.group(0).index('while')
            dowhiles[wk] = True
            sc = re.match(r'[\s\\]*;', m[we + 1:])
            cond0 = m[wp + 1:we].strip()
            res.append(('do', p, b, (be, wk, wp, we, (we + 1 + sc.end()) if sc else None, cond0)))
        else:
            if p in dowhiles: continue
            a = s + r.end()
            while m[a] in ' \t\n\\': a += 1
            if m[a] != '(': raise AttachError("%s without (" % kw)
            b = match(m, a, '(', ')')
            res.append((kw, p, b + 1, None))
    return [x for x in res if not (x[0] == 'do' and x[3][5] in ('0',))]

def annotate(src, specs):
    """specs: {func: {'loops': {k: [clauses]}, 'nloops': n or None, 'ghost': {k: text}}}"""
    m = mask(src)
    edits = []   # (pos, endpos, text)
    for fn, sp in specs.items():
        s, e = find_body(m, fn)
        ls = loops(m, s, e)
        want = sp.get('nloops')
        if want is None:
            want = (max(sp['loops']) + 1) if sp['loops'] else len(ls)
        if len(ls) != want:
            raise AttachError("%s: expected %d loops, found %d" % (fn, want, len(ls)))
        for k, clauses in sp['loops'].items():
            kind, kp, ip, extra = ls[k]
            txt = ' ' + ' '.join(clauses) + ' '
            if kind == 'do':
                be, wk, wp, we, sc, _ = extra
                cond = src[wp + 1:we]
                edits.append((kp, kp + 2, ''))
                edits.append((ip, ip, 'for (_Bool vf_once = 1; vf_once || (%s); vf_once = 0) %s' %
                              (cond.replace('\\\n', ' ').replace('\n', ' '), txt)))
                end = sc if sc else we + 1
                nl = src[wk:end].count('\n')
                edits.append((wk, end, '\n' * nl))
            else:
                edits.append((ip, ip, txt))
            g = sp.get('ghost', {}).get(k)
            if g:
                j = ip
                while m[j] in ' \t\n\\': j += 1
                if m[j] != '{':
                    if re.match(r'(for|if|while|do|switch)\b', m[j:]): raise AttachError("ghost on unbraced loop")
                    q, d = j, 0
                    while not (m[q] == ';' and d == 0):
                        d += (m[q] in '({[') - (m[q] in ')}]')
                        q += 1
                    edits.append((j, j, '{ ' + g + ' '))
                    edits.append((q + 1, q + 1, ' }'))
                else:
                    edits.append((j + 1, j + 1, ' ' + g + ' '))
    edits.sort(key=lambda t: (t[0], t[1]), reverse=True)
    out = src
    for a, b, t in edits:
        out = out[:a] + t + out[b:]
    return out
