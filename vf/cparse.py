"""Mechanical source handling: find functions and loops in C text, inject loop
annotations after the loop header, slice functions.  No executable token of the
source is changed: only annotation text (CBMC loop contract clauses) is added,
on the line where the loop header ends."""
import re


class ExtractError(Exception):
    pass


def mask(src):
    """Same-length text with comments, strings, char literals and preprocessor
    lines blanked (newlines kept), so that brackets can be matched."""
    out = list(src)
    i, n = 0, len(src)
    bol = True
    dirs = []

    def blank(a, b):
        for k in range(a, min(b, n)):
            if out[k] != '\n':
                out[k] = ' '
    while i < n:
        c = src[i]
        if src.startswith('/*', i):
            j = src.find('*/', i + 2)
            j = n if j < 0 else j + 2
            blank(i, j)
            i = j
            continue
        if src.startswith('//', i):
            j = i
            while j < n and src[j] != '\n':
                j += 2 if src[j] == '\\' else 1
            blank(i, j)
            i = j
            continue
        if c == '"' or c == "'":
            j = i + 1
            while j < n and src[j] != c and src[j] != '\n':
                j += 2 if src[j] == '\\' else 1
            j = min(j + 1, n)
            for k in range(i + 1, j - 1):
                if out[k] != '\n':
                    out[k] = ' '
            i = j
            bol = False
            continue
        if c == '#' and bol:
            j = i
            dirs.append(i)
            while j < n and src[j] != '\n':
                if src[j] == '\\' and j + 1 < n:
                    j += 2
                    continue
                if src.startswith('/*', j):
                    k = src.find('*/', j + 2)
                    j = n if k < 0 else k + 2
                    continue
                if src.startswith('//', j):
                    while j < n and src[j] != '\n':
                        j += 1
                    continue
                j += 1
            blank(i, j)
            i = j
            continue
        if c == '\n':
            bol = True
        elif not c.isspace():
            bol = False
        i += 1
    # alternatives that each open (or close) the same bracket: match only the first one
    stack = []
    for d in dirs:
        w = re.match(r'#\s*(\w*)', src[d:d + 40]).group(1)
        if w in ('if', 'ifdef', 'ifndef'):
            stack.append([d])
        elif w in ('else', 'elif') and stack:
            stack[-1].append(d)
        elif w == 'endif' and stack:
            g = stack.pop() + [d]
            if len(g) > 2:
                net = [sum((out[k] == '{') - (out[k] == '}') for k in range(a, b)) for a, b in zip(g, g[1:])]
                if net[0] and all(x == net[0] for x in net):
                    for k in range(g[1], g[-1]):
                        if out[k] in '{}':
                            out[k] = ' '
    return ''.join(out)


def match(m, i):
    """index just after the bracket that closes m[i]"""
    op = m[i]
    cl = {'(': ')', '{': '}', '[': ']'}[op]
    d = 0
    for k in range(i, len(m)):
        if m[k] == op:
            d += 1
        elif m[k] == cl:
            d -= 1
            if d == 0:
                return k + 1
    raise ExtractError('unbalanced ' + op)


def find_function(src, name, m=None):
    """(start of declaration, index of '{', index after '}')"""
    m = m or mask(src)
    for mo in re.finditer(r'\b%s\s*\(' % re.escape(name), m):
        p = mo.end() - 1
        try:
            q = match(m, p)
        except ExtractError:
            continue
        r = q
        while r < len(m) and m[r].isspace():
            r += 1
        if r >= len(m) or m[r] != '{':
            continue
        # declaration start: after the previous ';' or '}' (or file start)
        s = mo.start()
        while s > 0 and m[s - 1] not in ';}':
            s -= 1
        head = m[s:mo.start()]
        if '=' in head or '(' in head.replace('__attribute__', '') and '{' in head:
            continue
        if re.search(r'\b(return|else|if|while|for|switch)\b', head):
            continue
        if not head.strip():
            continue
        while m[s].isspace():
            s += 1
        return s, r, match(m, r)
    raise ExtractError('function %s not found' % name)


def function_text(src, name):
    s, b, e = find_function(src, name)
    return src[s:e]


def loops_of(src, name, m=None):
    """list of (kind, insertion index) for each loop of the function, in text order."""
    m = m or mask(src)
    _, b, e = find_function(src, name, m)
    res = []
    dostack = []
    body = m
    tok = re.compile(r'\b(for|while|do|for_each_elem)\b')
    do_while_heads = set()
    # find do ... while pairs first
    pos = b
    while True:
        mo = re.compile(r'\bdo\b').search(body, pos, e)
        if not mo:
            break
        k = mo.end()
        while body[k].isspace():
            k += 1
        if body[k] != '{':
            pos = mo.end()
            continue
        z = match(body, k)
        w = re.compile(r'\s*while\s*').match(body, z)
        if not w:
            raise ExtractError('do without while in ' + name)
        do_while_heads.add((mo.start(), z + len(body[z:w.end()]) - len(body[z:w.end()].lstrip())))
        pos = mo.end()
    dwh = {}
    for d, w in do_while_heads:
        ws = re.compile(r'\bwhile\b').search(body, w - 0 if body[w:w+5] == 'while' else w - 8).start()
        dwh[ws] = d
    pos = b
    items = []
    while True:
        mo = tok.search(body, pos, e)
        if not mo:
            break
        pos = mo.end()
        kw = mo.group(1)
        if kw == 'do':
            continue
        k = mo.end()
        while body[k].isspace():
            k += 1
        if body[k] != '(':
            raise ExtractError('odd loop header in ' + name)
        z = match(body, k)
        if kw == 'while' and mo.start() in dwh:
            items.append((dwh[mo.start()], 'do', z))
        else:
            items.append((mo.start(), kw, z))
    items.sort()
    return [(kind, z) for _, kind, z in items]



class Cut:
    """Inductive cut of one loop (the deductive rule for loops): at the loop head the
    invariant is asserted on entry, everything the loop assigns is havocked, the invariant
    is assumed, one arbitrary iteration runs, then the invariant and the decrease of the
    measure are asserted and the path ends; leaving the loop continues with invariant and
    negated condition.
      vars  : scalars assigned       ptrs : {pointer: base} assigned pointers (base + any offset)
      objs  : pointer expressions whose whole objects are havocked
      roots : further identifiers through which the body may write (fields, array cells
              covered by objs/havoc)    calls: functions the body may call
      havoc : extra havoc statements
      ghost : ghost statements run when the iteration is over; after: ghost statements at the havocked head
      inst  : instance, at the current element, of a precondition that holds for all elements
    The list is checked against the body mechanically (every assigned root and every
    called name must be listed), otherwise the unit is not used."""
    def __init__(self, inv, dec=None, vars=(), ptrs=None, objs=(), roots=(), calls=(), havoc='', ghost='', inst=''):
        self.inv, self.dec, self.vars, self.ptrs = ' '.join(inv.split()), dec, list(vars), dict(ptrs or {})
        self.objs, self.roots, self.calls, self.havoc, self.ghost, self.inst = list(objs), set(roots), set(calls), havoc, ghost, inst
        self.after = self.entry = ''


KEYWORDS = set('if else for while do switch case return sizeof goto break continue default typeof __typeof__ int char '
               'unsigned long short void const struct union enum static CHECK ASSUME defined'.split())


def stmt_end(m, i):
    """index just after the statement starting at or after i (masked text)"""
    while m[i].isspace():
        i += 1
    if m[i] == '{':
        return match(m, i)
    mo = re.compile(r'(for|while|switch|if|for_each_elem)\b').match(m, i)
    if mo:
        k = mo.end()
        while m[k].isspace():
            k += 1
        z = stmt_end(m, match(m, k))
        if mo.group(1) == 'if':
            e = re.compile(r'\s*else\b').match(m, z)
            if e:
                return stmt_end(m, e.end())
        return z
    mo = re.compile(r'do\b').match(m, i)
    if mo:
        z = stmt_end(m, mo.end())
        return m.index(';', z) + 1
    d = 0
    while True:
        if m[i] in '([{':
            i = match(m, i)
            continue
        if m[i] == ';':
            return i + 1
        i += 1


def body_frame(t):
    """(identifiers through which the masked text assigns, called names), over-approximated:
    every identifier outside [] on the left of an assignment, next to ++/--, or after unary &"""
    roots = set()
    for mo in re.finditer(r'=', t):
        k = mo.start()
        if t[k + 1:k + 2] == '=' or t[k - 1] in '=!':
            continue
        if t[k - 1] in '<>' and t[k - 2] != t[k - 1]:
            continue
        j, d = k - 1, 0
        while j >= 0:
            c = t[j]
            if c in ')]':
                d += 1
            elif c in '([':
                if d == 0:
                    break
                d -= 1
            elif d == 0 and (c in ';{},?:' or t[j:j + 2] in ('&&', '||')):
                break
            j -= 1
        lhs = t[j + 1:k]
        while True:
            mo2 = re.match(r'\s*(?:for|while|if|switch)\s*\(', lhs)
            if not mo2:
                break
            try:
                lhs = lhs[match(lhs, mo2.end() - 1):]
            except ExtractError:
                break
        while '[' in lhs:
            n = re.sub(r'\[[^\[\]]*\]', ' ', lhs)
            if n == lhs:
                break
            lhs = n
        lhs = re.sub(r'(->|\.)\s*[A-Za-z_]\w*', ' ', lhs)
        ids = re.findall(r'(?<![\w.])[A-Za-z_]\w*', lhs)
        # declaration with initialiser: only the declared name
        if re.match(r'\s*(?:(?:const|unsigned|signed|struct)\s+)*[A-Za-z_]\w*[\s*]+[A-Za-z_]\w*\s*$', lhs) and not lhs.strip().startswith('*'):
            ids = ids[-1:]
        roots.update(i for i in ids if i not in KEYWORDS and not re.match(r'^u?int\d+_t$|^size_t$|^else$|^goto$', i))
    for mo in re.finditer(r'(?:\+\+|--)\s*[(*\s]*([A-Za-z_]\w*)', t):
        roots.add(mo.group(1))
    for mo in re.finditer(r'([A-Za-z_]\w*)(?:\s*\[[^\]]*\]|->\s*\w+|\.\s*\w+|\s*\))*\s*(?:\+\+|--)', t):
        roots.add(mo.group(1))
    for mo in re.finditer(r'&', t):
        k = mo.start()
        if t[k + 1:k + 2] in '&=' or t[k - 1] == '&':
            continue
        pre = t[:k].rstrip()
        if pre and (pre[-1].isalnum() or pre[-1] in '_)]') and not re.search(r'\breturn$', pre):
            continue
        n = re.match(r'&\s*\(?\s*([A-Za-z_]\w*)', t[k:])
        if n:
            roots.add(n.group(1))
    calls = set(mo.group(1) for mo in re.finditer(r'([A-Za-z_]\w*)\s*\(', t)) - KEYWORDS
    return roots - KEYWORDS, calls


def declared_in(t):
    """names declared inside the text (block locals need no havoc)"""
    res = set()
    for mo in re.finditer(r'(?:^|(?<=[;{}(]))\s*((?:const\s+|unsigned\s+|signed\s+|static\s+|struct\s+)*[A-Za-z_]\w*(?:\s*\*+\s*|\s+))([A-Za-z_][^;{}()]*?(?:\([^;{}]*?\))?[^;{}]*?);', t):
        if mo.group(1).split()[0] in ('return', 'goto', 'else', 'case', 'do'):
            continue
        for part in mo.group(2).split(','):
            n = re.match(r'\s*\**\s*([A-Za-z_]\w*)', part)
            if n:
                res.add(n.group(1))
    return res


def cut_text(c, uid):
    h = ''.join('{ __typeof__(%s) vf_t; %s = vf_t; } ' % (v, v) for v in c.vars)
    h += ''.join('%s = (void *)((char *)(%s) + nondet_size_t()); ' % (p, b) for p, b in c.ptrs.items())
    h += ''.join('__CPROVER_havoc_object(%s); ' % o for o in c.objs) + c.havoc
    dec = ('CHECK((%s) < vf_m%d, "loop %d measure decreases"); ' % (c.dec, uid, uid)) if c.dec else ''
    st = ('if (vf_n%d++) { %s CHECK(%s, "loop %d invariant is preserved"); %s ASSUME(0); } ' % (uid, c.ghost, c.inv, uid, dec) +
          c.entry + 'CHECK(%s, "loop %d invariant holds on entry"); ' % (c.inv, uid) + h + ' ASSUME(%s); ' % c.inv + ('ASSUME(%s); ' % c.inst if c.inst else '') + c.after)
    if c.dec:
        st += 'vf_m%d = (%s); ' % (uid, c.dec)
    return st


def inject(src, annots, header=None):
    """annots: {function: [None | dfcc contract text | Cut per loop]}; returns new text.
    Only annotation text is added; no token of the source is changed (for_each_elem is
    replaced by its macro expansion)."""
    uid = 0
    for fn, lst in annots.items():
        if header and any(isinstance(a, Cut) for a in lst):
            src = expand_for_each(src, fn, header)
        n = len(loops_of(src, fn))
        if n != len(lst):
            raise ExtractError('%s has %d loops, contracts describe %d' % (fn, n, len(lst)))
        # innermost (last) first, so that earlier positions stay valid
        for i in range(len(lst) - 1, -1, -1):
            a = lst[i]
            if not a:
                continue
            m = mask(src)
            kind, z = loops_of(src, fn, m)[i]
            if not isinstance(a, Cut):
                src = src[:z] + ' ' + ' '.join(a.split()) + ' ' + src[z:]
                continue
            uid += 1
            start, hp, body, end = loop_span(m, fn, i)
            btxt = m[start:end]
            roots, calls = body_frame(strip_inj(btxt))
            ok = set(a.vars) | set(a.ptrs) | a.roots | declared_in(btxt)
            if roots - ok:
                raise ExtractError('%s loop %d also assigns %s' % (fn, i, sorted(roots - ok)))
            if calls - a.calls - KEYWORDS:
                raise ExtractError('%s loop %d also calls %s' % (fn, i, sorted(calls - a.calls)))
            st = '/*VF(*/' + cut_text(a, uid) + '/*VF)*/'
            mt = a.dec or '0'
            if kind == 'for' and a.dec:
                dcl = re.match(r'\s*(?:[A-Za-z_]\w*\s+)+\**(\w+)\s*=', src[hp[0] + 1:hp[1]])
                if dcl and re.search(r'\b%s\b' % dcl.group(1), a.dec):
                    mt = '0LL'  # measure over the variable declared in the header (64-bit signed)
            head = '{ int vf_n%d = 0; __typeof__(%s) vf_m%d = 0; ' % (uid, mt, uid)
            if kind == 'do':
                b = body
                new = head + src[start:b + 1] + ' ' + st + src[b + 1:end] + ' }'
            elif kind == 'while':
                p, q = hp
                new = head + src[start:p + 1] + '({ ' + st + ' 1; }) && (' + src[p + 1:q - 1] + ')' + src[q - 1:end] + ' }'
            else:
                if kind == 'for_each_elem':
                    raise ExtractError('for_each_elem not expanded')
                p, q = hp
                d, semi = 0, []
                for k in range(p + 1, q - 1):
                    if m[k] in '([{':
                        d += 1
                    elif m[k] in ')]}':
                        d -= 1
                    elif m[k] == ';' and d == 0:
                        semi.append(k)
                if len(semi) != 2:
                    raise ExtractError('odd for header in ' + fn)
                c = src[semi[0] + 1:semi[1]]
                c = '(%s)' % c if c.strip() else '1'
                new = head + src[start:semi[0] + 1] + ' ({ ' + st + ' 1; }) && ' + c + src[semi[1]:end] + ' }'
            src = src[:start] + new + src[end:]
    return src


def strip_inj(t):
    """masked text without annotations injected earlier (inner loops of a cut loop)"""
    t = re.sub(r'\{ int vf_n\d+ = 0; __typeof__\(.*?\) vf_m\d+ = 0; ', '{ ', t)
    return re.sub(r'if \(vf_n\d+\+\+\).*?ASSUME\(0\);.*?(?= 1; \}\) &&)', '', t, flags=re.S)


def loop_span(m, name, idx):
    """(start of statement, (open paren, after close paren) of the header, index of body, end)"""
    kind, z = loops_of(m, name, m)[idx]
    # header parenthesis: the one whose match ends at z
    d, k = 0, z - 1
    while True:
        if m[k] == ')':
            d += 1
        elif m[k] == '(':
            d -= 1
            if d == 0:
                break
        k -= 1
    hp = (k, z)
    s = k
    while m[s - 1].isspace():
        s -= 1
    while m[s - 1].isalnum() or m[s - 1] == '_':
        s -= 1
    if kind == 'do':
        # body is before the header
        e = m.index(';', z) + 1
        w = s
        while m[w - 1].isspace():
            w -= 1
        if m[w - 1] != '}':
            raise ExtractError('do body without braces')
        d, k = 0, w - 1
        while True:
            if m[k] == '}':
                d += 1
            elif m[k] == '{':
                d -= 1
                if d == 0:
                    break
            k -= 1
        b = k
        s = b
        while m[s - 1].isspace():
            s -= 1
        s -= 2
        return s, hp, b, e
    return s, hp, z, stmt_end(m, z)


def expand_for_each(src, fn, header):
    """replaces for_each_elem(...) in a function by the macro's own expansion"""
    mo = re.search(r'#define\s+for_each_elem\(([^)]*)\)\s*((?:.*\\\n)*.*)', header)
    if not mo:
        raise ExtractError('for_each_elem definition not found')
    ps = [x.strip() for x in mo.group(1).split(',')]
    bodyd = mo.group(2).replace('\\\n', ' ').strip()
    while True:
        m = mask(src)
        s, b, e = find_function(src, fn, m)
        k = m.find('for_each_elem', b, e)
        if k < 0:
            return src
        p = m.index('(', k)
        q = match(m, p)
        args, d, last = [], 0, p + 1
        for j in range(p + 1, q):
            if m[j] in '([{':
                d += 1
            elif m[j] in ')]}' and j < q - 1:
                d -= 1
            elif (m[j] == ',' and d == 0):
                args.append(src[last:j].strip())
                last = j + 1
        args.append(src[last:q - 1].strip())
        t = re.sub(r'\b(%s)\b' % '|'.join(ps), lambda g: args[ps.index(g.group(1))], bodyd)
        src = src[:k] + t + src[q:]
