"""Extracts items from Rust source text and weaves contracts into them.

The text of every function is the text in /repo/src of the day of the run. What changes on the way is exactly:
  * attributes, doc comments and visibility of extracted items are dropped (visibility becomes `pub`);
  * the return type gets a name, and requires/ensures/invariants/decreases/proof blocks are inserted (all of them ghost);
  * the substitutions a template lists by `sub` (each is recorded in the generated header with the number of places it changed).
A template that no longer finds the function, loop or place it names raises Lost: the caller then has no verdict, never an alarm.
"""
import hashlib, os, re

TOK = re.compile(r'''
  (?P<ws>\s+)
 |(?P<com>//[^\n]*|/\*.*?\*/)
 |(?P<str>b?"(?:\\.|[^"\\])*"|b?r(?P<h>\#*)".*?"(?P=h))
 |(?P<chr>b?'(?:\\.[^']*|[^'\\])')
 |(?P<life>'[A-Za-z_]\w*)
 |(?P<id>[A-Za-z_]\w*)
 |(?P<num>\d[\w]*(?:\.\d\w*)?)
 |(?P<p>::|->|=>|==|!=|<=|>=|&&|\|\||\.\.=|\.\.|[+\-*/%^&|]=|.)
''', re.X | re.S)

OPEN, CLOSE = '([{', ')]}'


class Lost(Exception):
    pass


def lex(s):
    """[(kind, text, offset)] without whitespace and comments."""
    out, i = [], 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise Lost('cannot read source at offset %d' % i)
        k = m.lastgroup if m.lastgroup != 'h' else 'str'
        if k not in ('ws', 'com'):
            out.append((k, m.group(), i))
        i = m.end()
    return out


def match_close(t, i):
    """Index of the token closing the bracket at token i."""
    d = 0
    for j in range(i, len(t)):
        if t[j][0] == 'p':
            if t[j][1] in OPEN:
                d += 1
            elif t[j][1] in CLOSE:
                d -= 1
                if d == 0:
                    return j
    raise Lost('unbalanced brackets')


def skip_attr(t, i):
    """From a `#` token to the token after the attribute."""
    j = i + 1
    if t[j][1] == '!':
        j += 1
    return match_close(t, j) + 1


class Source:
    def __init__(self, path, shown):
        self.path, self.shown = path, shown
        self.text = open(path, encoding='utf-8').read()
        self.t = lex(self.text)
        self.items = []
        self.scan(0, len(self.t), None)

    def scan(self, i, end, owner):
        t = self.t
        while i < end:
            start, attrs = i, []
            while i < end and t[i][1] == '#':
                j = skip_attr(t, i)
                attrs.append(self.text[t[i][2]:t[j - 1][2] + 1])
                i = j
            if i >= end:
                return
            first = i
            test = any(re.match(r'#\[cfg\(test\)\]|#\[test\]', re.sub(r'\s', '', a)) for a in attrs)
            if t[i][1] == 'pub':
                i += 1
                if i < end and t[i][1] == '(':
                    i = match_close(t, i) + 1
            quals = i
            while i < end and t[i][1] in ('const', 'unsafe', 'async', 'default', 'extern') and t[i + 1][1] in ('fn', 'unsafe', 'async', 'extern', 'impl', 'trait'):
                i += 1
            kw = t[i][1]
            if kw in ('fn', 'struct', 'enum', 'trait', 'mod', 'type', 'const', 'static', 'impl', 'use', 'union'):
                j = i + 1
                # end of the item: first `;` or the closing of the first `{` at depth 0
                k = j
                body = None
                while k < end:
                    x = t[k][1]
                    if x == ';' and t[k][0] == 'p':
                        break
                    if x == '{' and t[k][0] == 'p' and kw not in ('const', 'static', 'use', 'type'):
                        body = k
                        k = match_close(t, k)
                        break
                    if x in OPEN and t[k][0] == 'p':
                        k = match_close(t, k)
                    k += 1
                if k >= end:
                    raise Lost('item without end')
                name = t[j][1] if kw != 'impl' else self.impl_name(j, body)
                if not test:
                    self.items.append(dict(kind=kw, name=name, owner=owner, first=first, quals=quals, kw=i, body=body, last=k))
                    if kw in ('impl', 'trait') and body is not None:
                        self.scan(body + 1, k, name if kw == 'impl' else ('trait', t[j][1], t[j][1]))
                i = k + 1
            else:
                i = max(i, start) + 1  # macro invocation or the like

    def impl_name(self, j, body):
        """('impl', trait or None, self type)"""
        t = self.t
        if t[j][1] == '<':
            d = 0
            while True:
                if t[j][1] == '<':
                    d += 1
                elif t[j][1] == '>':
                    d -= 1
                j += 1
                if d == 0:
                    break
        head = t[j:body]
        d, cut, where = 0, None, len(head)
        for k, x in enumerate(head):
            if x[1] == '<':
                d += 1
            elif x[1] == '>':
                d -= 1
            elif x[1] == 'for' and d == 0:
                cut = k
            elif x[1] == 'where' and d == 0:
                where = k
                break
        txt = lambda xs: ''.join(y[1] for y in xs)
        ty = txt(head[(cut + 1) if cut is not None else 0:where])
        tr = txt(head[:cut]) if cut is not None else None
        short = lambda s: re.sub(r'(::)?<.*', '', s).split('::')[-1] if s else s
        return ('impl', short(tr), short(ty), ty)

    def find(self, kind, path):
        c = []
        for it in self.items:
            if it['kind'] != kind:
                continue
            if kind != 'fn' or '::' not in path:
                if it['name'] == path and it['owner'] is None:
                    c.append(it)
                continue
            ty, fn = path.rsplit('::', 1)
            tr = None
            if '@' in ty:
                tr, ty = ty.split('@')
            o = it['owner']
            if it['name'] == fn and o and ty in o[2:] and (tr is None or o[1] == tr):
                c.append(it)
        if '@' not in path and len(c) > 1:
            c = [it for it in c if it['owner'] and it['owner'][1] is None] or c
        if kind == 'const' and not c:
            ty, nm = (path.rsplit('::', 1) + [None])[:2] if '::' in path else (None, path)
            c = [it for it in self.items if it['kind'] == 'const' and it['name'] == nm and it['owner'] and it['owner'][2] == ty]
        if len(c) != 1:
            raise Lost('%s %s: %d found in %s' % (kind, path, len(c), self.shown))
        return c[0]

    def slice(self, a, b):
        """Text of tokens a..=b."""
        return self.text[self.t[a][2]:self.t[b][2] + len(self.t[b][1])]

    def line(self, tok):
        return self.text.count('\n', 0, self.t[tok][2]) + 1


def strip_attrs(s):
    t = lex(s)
    cuts, i = [], 0
    while i < len(t):
        if t[i][1] == '#' and i + 1 < len(t) and t[i + 1][1] in ('[', '!'):
            j = skip_attr(t, i)
            cuts.append((t[i][2], t[j - 1][2] + 1))
            i = j
        else:
            i += 1
    for a, b in reversed(cuts):
        s = s[:a] + s[b:]
    return re.sub(r'(?m)^\s*///.*\n?', '', s)


class Fn:
    """A function text with named places for insertions."""

    def __init__(self, text, what):
        self.s, self.what = text, what
        self.ins = []  # (offset, order, text)
        self.t = lex(text)
        t = self.t
        i = next(k for k, x in enumerate(t) if x[1] == 'fn')
        self.fn = i
        self.name = t[i + 1][1]
        k = i
        while t[k][1] != '(':
            k += 1
        self.params = (k, match_close(t, k))
        k = self.params[1] + 1
        self.arrow = None
        if t[k][1] == '->':
            self.arrow = k
        d = 0
        self.where = None
        while True:
            x = t[k]
            if x[1] == '{' and x[0] == 'p':
                break
            if x[1] == 'where':
                self.where = k
            if x[1] in '([' and x[0] == 'p':
                k = match_close(t, k)
            k += 1
            if k >= len(t):
                raise Lost(what + ' has no body')
        self.body = k
        self.end = match_close(t, k)
        # loops in source order
        self.loops = []
        k = self.body + 1
        while k < self.end:
            w = t[k][1]
            if t[k][0] == 'id' and w in ('for', 'while', 'loop') and not (w == 'for' and t[k + 1][1] == '<'):
                j = k + 1
                while not (t[j][1] == '{' and t[j][0] == 'p'):
                    if t[j][1] in '([' and t[j][0] == 'p':
                        j = match_close(t, j)
                    j += 1
                self.loops.append((k, w, j, match_close(t, j)))
            k += 1

    def at(self, off, text, order=0):
        self.ins.append((off, order, len(self.ins), text))

    def off(self, k):
        return self.t[k][2]

    def name_loops(self, keys):
        named = {}
        for n, text in keys:
            hit = [l for l in self.loops if text in ' '.join(self.s[self.off(l[0]):self.off(l[2])].split())]
            if len(hit) != 1:
                raise Lost('%s: %d loops over `%s`' % (self.what, len(hit), text))
            named[int(n)] = hit[0]
        rest = [l for l in self.loops if l not in named.values()]
        if rest:
            raise Lost('%s has a further loop' % self.what)
        self.loops = [named[i] for i in range(len(named))]

    def loop(self, n, kind=None):
        if os.environ.get('WEAVE_LOOPS'):
            print(self.what, n, self.s[self.off(self.loops[n][0]):self.off(self.loops[n][2])] if n < len(self.loops) else '')
        if n >= len(self.loops):
            raise Lost('%s has no loop %d' % (self.what, n))
        l = self.loops[n]
        if kind and l[1] != kind:
            raise Lost('%s: loop %d is a %s, the contract is for a %s' % (self.what, n, l[1], kind))
        return l

    def statements(self, a, b):
        """Spans (first token, last token, has_semicolon) of the statements between tokens a and b (both exclusive)."""
        t, out, k = self.t, [], a + 1
        while k < b:
            st = k
            blockish = t[k][1] in ('if', 'for', 'while', 'loop', 'match', 'unsafe', 'fn', '{')
            semi = False
            while k < b:
                x = t[k]
                if x[0] == 'p' and x[1] == ';':
                    semi = True
                    break
                if x[0] == 'p' and x[1] in OPEN:
                    k = match_close(t, k)
                    if blockish and x[1] == '{' and not (k + 1 < b and t[k + 1][1] in ('else', '.', '?')):
                        break
                k += 1
            k = min(k, b - 1)
            out.append((st, k, semi))
            k += 1
        return out

    def stmt_with(self, lit):
        """Offsets where the innermost statement that contains the text starts and ends."""
        t = self.t
        o = self.s.find(lit, self.off(self.body))
        if o < 0:
            raise Lost('%s: no `%s`' % (self.what, lit))
        k = m = next(k for k, x in enumerate(t) if x[2] + len(x[1]) > o)
        d = 0
        while True:
            k -= 1
            x = t[k]
            if x[0] == 'p':
                if d == 0 and (x[1] == ';' or x[1] == '{' or x[1] == '}'):
                    break
                if x[1] in CLOSE:
                    d += 1
                elif x[1] in OPEN:
                    d -= 1 if d else 0
        d = 0
        while m < len(t):
            x = t[m]
            if x[0] == 'p':
                if d == 0 and x[1] == ';':
                    break
                if x[1] in OPEN:
                    d += 1
                elif x[1] in CLOSE:
                    d -= 1
                    if d < 0 and x[1] == '}':
                        m -= 1
                        break
                    d = max(d, 0)
            m += 1
        return t[k + 1][2], t[m][2] + len(t[m][1])

    def tail(self):
        s = self.statements(self.body, self.end)
        if not s or s[-1][2]:
            raise Lost(self.what + ' has no tail expression')
        return s[-1]

    def render(self):
        s = self.s
        for off, order, n, text in sorted(self.ins, key=lambda x: (-x[0], -x[1], -x[2])):
            s = s[:off] + text + s[off:]
        return s


SECTION = re.compile(r'^(loops|spec|start|end|tail(?: \w+)?|loop \d+(?: (?:for|while|loop))?(?: iter \w+)?|loop \d+ (?:start|end)|before loop \d+|after loop \d+|before stmt \d+|attr|before loop \d+ stmt \d+|(?:before|after) with .+?|inner \w+(?: \w+)?(?: (?:start|end))?):\s*$')


def weave_fn(fn, lines, record):
    """lines: the directive's body. Applies sections, returns text."""
    sections, cur = [], None
    for l in lines:
        m = SECTION.match(l.strip())
        if m and not l.startswith('        '):
            cur = [m[1], []]
            sections.append(cur)
        elif cur is None:
            if l.strip():
                raise ValueError('stray line in template: ' + l)
        else:
            cur[1].append(l)
    attr = ''
    for head, ls in sections:
        if head == 'loops':
            # `N TEXT`: loop N of the contract is the one loop whose header has TEXT, wherever it stands
            fn.name_loops([l.strip().split(None, 1) for l in ls if l.strip()])
    for head, ls in sections:
        if head == 'loops':
            continue
        body = '\n'.join(ls).rstrip() + '\n'
        w = head.split()
        if head == 'spec':
            at = fn.where if fn.where is not None else fn.body
            # contracts go right before the body
            fn.at(fn.off(fn.body), '\n' + body)
        elif w[0] == 'inner':
            # a function declared inside this one: `inner NAME [RET]` gives its contract, `inner NAME start` the start of its body
            t = fn.t
            k = next((k for k in range(fn.body, fn.end) if t[k][1] == 'fn' and t[k + 1][1] == w[1]), None)
            if k is None:
                raise Lost('%s has no inner function %s' % (fn.what, w[1]))
            while t[k][1] != '(':
                k += 1
            k = match_close(t, k) + 1
            a = k
            while not (t[k][1] == '{' and t[k][0] == 'p'):
                k += 1
            if w[-1] == 'start':
                fn.at(fn.off(k) + 1, '\n' + body, 1)
            elif w[-1] == 'end':
                last = fn.statements(k, match_close(t, k))[-1]
                fn.at(fn.off(match_close(t, k) if last[2] else last[0]), '\n' + body)
            else:
                if t[a][1] == '->':
                    fn.at(fn.off(a + 1), '(%s: ' % (w[2] if len(w) > 2 else 'r'))
                    fn.at(fn.off(k - 1) + len(t[k - 1][1]), ')')
                fn.at(fn.off(k), '\n' + body)
        elif head == 'attr':
            attr = body
        elif head == 'start':
            fn.at(fn.off(fn.body) + 1, '\n' + body, 1)
        elif head == 'end':
            try:
                fn.at(fn.off(fn.tail()[0]), '\n' + body)
            except Lost:
                fn.at(fn.off(fn.end), '\n' + body)
        elif w[0] == 'tail':
            a, b, _ = fn.tail()
            r = w[1] if len(w) > 1 else 'r__'
            fn.at(fn.off(a), 'let %s = ' % r)
            fn.at(fn.off(b) + len(fn.t[b][1]), ';\n' + body + r + '\n')
        elif w[0] == 'loop' and w[-1] in ('start', 'end'):
            l = fn.loop(int(w[1]))
            if w[2] == 'start':
                fn.at(fn.off(l[2]) + 1, '\n' + body, 1)
            else:
                fn.at(fn.off(l[3]), '\n' + body)
        elif w[0] == 'loop':
            kind = next((x for x in w[2:] if x in ('for', 'while', 'loop')), None)
            l = fn.loop(int(w[1]), kind)
            if 'iter' in w:
                it = w[w.index('iter') + 1]
                k = l[0]
                d = 0
                while not (fn.t[k][1] == 'in' and d == 0):
                    if fn.t[k][1] in '([' :
                        k = match_close(fn.t, k)
                    k += 1
                fn.at(fn.off(k) + 2, ' %s:' % it)
            fn.at(fn.off(l[2]), '\n' + body)
        elif w[0] == 'before' and w[1] == 'loop' and len(w) == 3:
            fn.at(fn.off(fn.loop(int(w[2]))[0]), '\n' + body)
        elif w[0] == 'after' and w[1] == 'loop':
            fn.at(fn.off(fn.loop(int(w[2]))[3]) + 1, '\n' + body)
        elif w[0] in ('before', 'after') and w[1] == 'with':
            a, b = fn.stmt_with(head.split(' with ', 1)[1])
            fn.at(a if w[0] == 'before' else b, '\n' + body)
        elif w[0] == 'before' and w[1] == 'stmt':
            s = fn.statements(fn.body, fn.end)
            if int(w[2]) >= len(s):
                raise Lost('%s has no statement %s' % (fn.what, w[2]))
            fn.at(fn.off(s[int(w[2])][0]), '\n' + body)
        elif w[0] == 'before' and w[1] == 'loop':
            l = fn.loop(int(w[2]))
            s = fn.statements(l[2], l[3])
            if int(w[4]) >= len(s):
                raise Lost('%s: loop %s has no statement %s' % (fn.what, w[2], w[4]))
            fn.at(fn.off(s[int(w[4])][0]), '\n' + body)
    return attr + fn.render()


def name_return(fn, ret):
    if fn.arrow is None:
        return
    a = fn.arrow + 1
    b = (fn.where if fn.where is not None else fn.body) - 1
    fn.at(fn.off(a), '(%s: ' % ret)
    fn.at(fn.off(b) + len(fn.t[b][1]), ')')


class Weaver:
    """expand(template) -> (text, functions [dict(name, file, lines, sha, first, last)], notes)"""

    def __init__(self, roots):
        self.roots, self.cache = roots, {}

    def source(self, path):
        if path not in self.cache:
            root, _, rest = path.partition('/') if path.split('/')[0] in self.roots else ('', '', path)
            full = os.path.join(self.roots[root], rest)
            if not os.path.exists(full):
                raise Lost('no file ' + path)
            self.cache[path] = Source(full, path)
        return self.cache[path]

    def expand(self, template, smoke=False):
        """A line `%NAME text` of a template counts only after a line `//@ set NAME`, `%!NAME text` only without it."""
        on = set()
        out, fns, notes, subs, saved, gone = [], [], [], [], [], []
        lines = open(template, encoding='utf-8').read().split('\n')
        base = os.path.dirname(template)
        i = 0
        while i < len(lines):
            l = lines[i]
            m = re.match(r'%(!?)(\w+) (.*)$', l)
            if m:
                if (m[2] in on) != bool(m[1]):
                    lines[i] = m[3]
                else:
                    del lines[i]
                continue
            m = re.match(r'\s*//@\s+set\s+(\w+)', l)
            if m:
                on.add(m[1])
                i += 1
                continue
            m = re.match(r'\s*//@\s+include\s+(\S+)', l)
            if m:
                lines[i:i + 1] = open(os.path.join(base, m[1]), encoding='utf-8').read().split('\n')
                continue
            if re.match(r'\s*//@\s+scope\b', l):
                saved.append(len(subs))
                i += 1
                continue
            if re.match(r'\s*//@\s+endscope\b', l):
                n = saved.pop()
                gone += subs[n:]
                del subs[n:]
                i += 1
                continue
            m = re.match(r'\s*//@\s+sub(\??)\s+(.*)$', l)
            if m:
                a, b = m[2].split(' ==>', 1)
                subs.append((a.strip(), b.strip(), [0]))
                i += 1
                continue
            m = re.match(r'\s*//@\s+item\s+(\S+)\s+(\w+)\s+(\S+)\s*(.*)$', l)
            if m:
                out.append(self.item(m[1], m[2], m[3], m[4], subs))
                i += 1
                continue
            m = re.match(r'\s*//@\s+fn\s+(\S+)\s+(\S+)\s*(.*)$', l)
            if m:
                j = i + 1
                while not re.match(r'(%\w+ )?\s*//@\s+end', lines[j]):
                    j += 1
                text, rec = self.fn(m[1], m[2], m[3], switched(lines[i + 1:j], on), subs, smoke)
                rec['first'] = sum(x.count('\n') + 1 for x in out) + 1
                out.append(text)
                rec['last'] = sum(x.count('\n') + 1 for x in out)
                fns.append(rec)
                i = j + 1
                continue
            out.append(l)
            i += 1
        for a, b, n in gone + subs:
            notes.append('substitution %s ==> %s: %d places' % (a, b, n[0]))
        return '\n'.join(out), fns, notes

    def apply_subs(self, s, subs):
        for a, b, n in subs:
            s, k = re.subn(a, b, s, flags=re.S)
            n[0] += k
        return s

    def item(self, path, kind, name, opts, subs):
        src = self.source(path)
        it = src.find(kind, name)
        s = strip_attrs(src.slice(it['kw'], it['last']))
        s = self.apply_subs(s, subs)
        if kind == 'struct':
            t = lex(s)
            k = next((k for k, x in enumerate(t) if x[1] in '{(;'), None)
            if k is not None and t[k][1] in '{(':
                e = match_close(t, k)
                pos, j, fresh = [], k + 1, True
                d = 0
                while j < e:
                    if fresh and d == 0:
                        if t[j][1] != 'pub':
                            pos.append(t[j][2])
                        fresh = False
                    if t[j][1] in OPEN:
                        j = match_close(t, j)
                    elif t[j][1] == '<':
                        d += 1
                    elif t[j][1] == '>':
                        d -= 1
                    elif t[j][1] == ',' and d == 0:
                        fresh = True
                    j += 1
                for p in reversed(pos):
                    s = s[:p] + 'pub ' + s[p:]
        pre = ''
        m = re.search(r'derive\(([^)]*)\)', opts)
        if m:
            pre = '#[derive(%s)]\n' % m[1]
        m = re.search(r'attr\((.*?)\)\s*$', opts)
        if m:
            pre += '#[%s]\n' % m[1]
        return pre + 'pub ' + s

    def fn(self, path, name, opts, body, subs, smoke):
        src = self.source(path)
        it = src.find('fn', name)
        raw = strip_attrs(src.slice(it['quals'], it['last']))
        if it['body'] is None:
            raise Lost(name + ' has no body')
        local, rest = [], []
        for l in body:
            m = re.match(r'\s*sub\s+(.*)$', l)
            if m and ' ==>' in m[1] and not rest_started(rest):
                a, b = m[1].split(' ==>', 1)
                local.append((a.strip(), b.strip(), [0]))
            else:
                rest.append(l)
        s = self.apply_subs(raw, subs + local)
        for a, b, n in local:
            subs.append((a + '   (in %s only)' % name, b, n)) if False else None
        m = re.search(r'\bas\s+(\w+)', opts)
        if 'mutself' in opts.split():
            # `mut self` is not in the verifier's language: the same body on a local copy called `me`.
            t = lex(s)
            k = next(k for k, x in enumerate(t) if x[1] == 'mut' and t[k + 1][1] == 'self')
            b = Fn(s, name).body
            for x in reversed([x for x in t[b:] if x == (x[0], 'self', x[2])]):
                s = s[:x[2]] + 'me' + s[x[2] + 4:]
            s = s[:t[b][2] + 1] + ' let mut me = self; ' + s[t[b][2] + 1:]
            s = s[:t[k][2]] + s[t[k + 1][2]:]
        fn = Fn(s, name)
        if m:
            fn.at(fn.off(fn.fn + 1), m[1] + '/*')
            fn.at(fn.off(fn.fn + 1) + len(fn.name), '*/')
        r = re.search(r'\bret\s+(\w+)', opts)
        name_return(fn, r[1] if r else 'r')
        if smoke:
            fn.at(fn.off(fn.body) + 1, ' assert(false); ', 9)
        text = weave_fn(fn, rest, None)
        if 'nopub' not in opts:
            text = re.sub(r'^((?:\s*#\[[^\]]*\]\s*)*)', lambda m: m[1] + 'pub ', text, count=1)
        if 'const' in opts.split():
            pass
        text = re.sub(r'\bpub const fn\b', 'pub fn', text) if 'keepconst' not in opts else text
        rec = dict(name=name, file=path, lines='%d-%d' % (src.line(it['kw']), src.line(it['last'])),
                   sha=hashlib.sha256(raw.encode()).hexdigest()[:12], local=[(a, b, n[0]) for a, b, n in local])
        return text, rec


def switched(lines, on):
    out = []
    for l in lines:
        m = re.match(r'%(!?)(\w+) (.*)$', l)
        if not m:
            out.append(l)
        elif (m[2] in on) != bool(m[1]):
            out += switched([m[3]], on)
    return out


def rest_started(rest):
    return any(x.strip() for x in rest)
