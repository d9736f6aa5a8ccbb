"""Random snippets and sessions over the vocabulary of the specification."""
import json, os, random

V = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'vocab.json'), encoding='utf8'))
CMDS, CHARS = V['cmds'], V['chars']
ENVS = ['align', 'align*', 'aligned', 'darray', 'equation', 'equation*', 'gather', 'gather*', 'gathered', 'multline',
        'bmatrix', 'Bmatrix', 'cases', 'rcases', 'dcases', 'drcases', 'matrix', 'pmatrix', 'vmatrix', 'Vmatrix', 'array', 'subarray']
BYKIND = {}
for n, d in CMDS.items():
    BYKIND.setdefault(d['k'], []).append(n)
for k in BYKIND:
    BYKIND[k].sort()
NAMES = sorted(CMDS) + sorted(V['unrel']) + sorted(V['uni'])
# (how it is written in front of anything, how it is written, its kind): commands, then characters
SYMBOLS = [('\\' + n + (' ' if n[-1].isalpha() else ''), '\\' + n, CMDS.get(n, {}).get('k', '')) for n in NAMES] + [(c, c, CHARS[c]['k']) for c in sorted(CHARS)]


def all_names(k):
    return ['\\' + n + (' ' if n[-1].isalpha() else '') for n in BYKIND[k]]


DELIMS = ['(', ')', '[', ']', '|', '/', '.', '<', '>', r'\{', r'\}', r'\|', r'\langle ', r'\rangle ', r'\lfloor ', r'\uparrow ', r'\vert ', r'\backslash ']
LENS = sorted(V['lens'])
UNI = ['é', 'α', 'β', 'π', 'ı', 'œ', 'Γ', '∂', '∇', '☃', '😀', '𝔸', '…', '“', '€']
USER = ['a', 'b', 'zz', 'foo', 'q']


WEIGHTS = {'scripts': 4, 'frac': 1, 'sqrt': 1, 'fence': 1, 'env': 2, 'group': 1, 'font': 1, 'anycmd': 1, 'text': 1, 'define': 1,
           'bigop': 1, 'switch': 1, 'wrap': 1, 'infix': 1, 'space': 1, 'color': 1, 'big': 1, 'choice': 1, 'misc': 1, 'ref': 1,
           'prime': 1, 'kind': 1, 'stray': 1, 'accent': 1}


class Gen:
    """focus: how much more often a construct is chosen; stray: how often the snippet is damaged."""
    def __init__(self, rnd, focus=None, stray=.15, envs=None, defs=.2):
        self.r = rnd
        w = dict(WEIGHTS)
        w.update(focus or {})
        if stray == 0:
            w['stray'] = 0
        self.kinds, self.weights = zip(*sorted(w.items()))
        self.stray, self.envs, self.defs = stray, envs or ENVS, defs

    def which(self):
        return self.r.choices(self.kinds, self.weights)[0]

    def pick(self, xs):
        return self.r.choice(xs)

    def name(self, n):
        return '\\' + n + (' ' if n[-1].isalpha() else '')

    def kind(self, *ks):
        ks = [k for k in ks if k in BYKIND]
        return self.name(self.pick(BYKIND[self.pick(ks)]))

    def atom(self, d):
        r = self.r.random()
        if r < .30: return self.pick('abcxyzABXN')
        if r < .38: return self.pick(['1', '23', '4.5', '0', '1,000', '7'])
        if r < .50: return self.pick('+-=<>,;:!?/()[]|*.\'"&~@`')if self.r.random() < .97 else self.pick('$#^_')
        if r < .54: return self.pick(UNI)
        if r < .80: return self.name(self.pick(NAMES)) if self.r.random() < .35 else self.kind('letter', 'upletter', 'op', 'rel', 'bin', 'pop', 'popl', 'flop', 'punct', 'inner', 'ord', 'open', 'close', 'space', 'dots', 'bcmd', 'prime', 'mci', 'nbsp')
        if r < .84: return self.name(self.pick(USER))
        return self.pick([' ', '~', r'\,', r'\!', r'\ ', '\n', '% c\n'])

    def arg(self, d):
        r = self.r.random()
        if d <= 0 or r < .35: return self.pick('abxyzN12') if r < .3 else self.atom(0)
        if r < .38: return ''
        return '{' + self.seq(d - 1) + '}'

    def text(self, d):
        out = ''
        for _ in range(self.r.randint(0, 4)):
            out += self.pick(['a', 'b', ' ', '  ', 'é', '-', "'", '1', '{x}', r'\textbf{q}', r'\emph{w}', r'\it ', r'\&', r'\#', r'\ss ', r"\'e", r'\"o', r'\^{u}', r'\large ',
                              r'\raisebox{2pt}{r}', '~', r'\textit ab', r'\text{n}', r'\%', r'\ ', r'{\bf z}', '$', r'\alpha ', '% c\n', '\n', r'\underline{u}', r'\texttt{t}', '<', '&', '"'][:self.r.choice([20, 26, 33])])
        return '{' + out + '}'

    def delim(self):
        return self.pick(DELIMS)

    def cell_sep(self):
        return self.pick([' & ', '&', ' & ', r'\\', r'\\ ', r'\cr ', r'\newline '] if self.r.random() < .9 else [r'\\[2pt]', r'\\*', r'\\\hline ', r'\\\hdashline '])

    def env(self, d):
        e = self.pick(self.envs)
        spec = ''
        if e in ('array', 'darray', 'subarray'):
            spec = '{' + ''.join(self.pick(['c', 'l', 'r', '|', ':', 'c']) for _ in range(self.r.randint(1, 4))) + '}' if e != 'subarray' else self.pick(['{c}', '{l}', '{r}', '{cc}'])
        body = ''
        for _ in range(self.r.randint(1, 5)):
            body += self.seq(d - 1, 2)
            if self.r.random() < .25:
                body += self.pick([r'\label{l%d}' % self.r.randint(0, 3), r'\tag{t}', r'\tag*{u}', r'\nonumber ', r'\notag '])
            if self.r.random() < .8:
                body += self.cell_sep()
        return r'\begin{%s}%s%s\end{%s}' % (e, spec, body, e if self.r.random() < .97 else self.pick(ENVS))

    def define(self, d):
        n = self.pick(USER)
        k = self.r.randint(0, 5)
        body = self.seq(d - 1, 3)
        na = self.r.randint(0, 2)
        for i in range(na):
            if self.r.random() < .8:
                j = self.r.randint(0, len(body))
                body = body[:j] + '#%d' % (i + 1) + body[j:]
        opt = '[%d]' % na if na else ''
        g = self.pick(['', '', '', r'\global'])
        if k == 0: return r'%s\def\%s%s{%s}' % (g, n, ''.join('#%d' % (i + 1) for i in range(na)), body)
        if k == 1: return r'%s\let\%s%s' % (g, n, self.pick(['=', ' ', '']) + self.atom(0))
        if k == 2: return r'\gdef\%s%s{%s}' % (n, ''.join('#%d' % (i + 1) for i in range(na)), body)
        return r'\%s{\%s}%s{%s}' % (self.pick(['newcommand', 'renewcommand', 'providecommand']), n, opt, body)

    def length(self):
        return self.pick(LENS)

    def construct(self, d):
        A = lambda: self.arg(d)
        k = self.which()
        if k == 'scripts': return self.arg(d) + self.pick(['^', '_']) + A() + (self.pick(['^', '_']) + A() if self.r.random() < .5 else '')
        if k == 'frac': return self.pick([r'\frac', r'\dfrac', r'\tfrac', r'\cfrac', r'\binom', r'\dbinom', r'\tbinom']) + A() + A()
        if k == 'sqrt': return r'\sqrt' + (self.pick(['[3]', '[n]', '[' + self.seq(d - 1) + ']', '']) ) + A()
        if k == 'fence': return r'\left' + self.delim() + self.seq(d - 1) + (r'\middle' + self.delim() + self.seq(d - 1) if self.r.random() < .4 else '') + r'\right' + self.delim()
        if k == 'env': return self.env(d)
        if k == 'group': return '{' + self.seq(d - 1) + '}'
        if k == 'font': return self.kind('font', 'tf', 'tfcmd', 'mathfont', 'mathchoice', 'style', 'tfsw', 'infix') + A()
        if k == 'anycmd': return self.name(self.pick(NAMES)) + A() + (A() if self.r.random() < .5 else '')
        if k == 'text': return self.pick([r'\text', r'\textbf', r'\mbox', r'\textit', r'\textrm', r'\texttt', r'\emph', r'\underline', r'\tag', r'\operatorname', r'\operatorname*', r'\mathrm', r'\hbox']) + self.text(d)
        if k == 'define': return self.define(d) + self.pick(['', self.name(self.pick(USER)) + self.pick(['', A(), A() + A()])])
        if k == 'bigop': return self.pick([r'\sum', r'\int', r'\lim', r'\max', r'\prod', r'\bigcap', r'\sup', r'\mathop{x}', r'\operatorname*{q}']) + self.pick(['', '', r'\limits', r'\nolimits', r'\displaylimits']) + self.pick(['', '_' + A(), '^' + A(), '_' + A() + '^' + A()])
        if k == 'switch': return self.pick([r'\displaystyle ', r'\textstyle ', r'\scriptstyle ', r'\scriptscriptstyle ', r'\bf ', r'\rm ', r'\it ', r'\cal ', r'\sf ', r'\tt '])
        if k == 'wrap': return self.pick([r'\overset', r'\underset', r'\stackrel', r'\overbrace', r'\underbrace', r'\overline', r'\hat', r'\widehat', r'\vec', r'\dot', r'\tilde', r'\not', r'\cancel', r'\boxed', r'\phantom', r'\vphantom', r'\mathbin', r'\mathrel', r'\mathop', r'\mathord', r'\mathopen', r'\mathclose', r'\mathpunct', r'\mathinner', r'\smash', r'\xrightarrow', r'\xleftarrow[a]', r'\underbrace', r'\bmod', r'\pmod', r'\pod', r'\mod']) + A() + self.pick(['', '_' + A(), '^' + A()])
        if k == 'infix': return self.seq(d - 1, 2) + self.pick([r'\over ', r'\atop ', r'\choose ', r'\brace ', r'\brack ', r'\above 1pt', r'\above{2em}']) + self.seq(d - 1, 2)
        if k == 'space': return self.pick([r'\kern', r'\mkern', r'\hskip', r'\mskip', r'\hspace', r'\mspace']) + self.pick(['%s', '{%s}', ' %s ']) % self.length()
        if k == 'color': return self.pick([r'\color{red}', r'\textcolor{blue}{%s}' % self.seq(d - 1), r'\color{nope}', r'\color[HTML]{12abEF}', r'\color[rgb]{0,1,0.5}', r'\textcolor[RGB]{1,2,3}{x}', r'\color{ForestGreen}', r'\definecolor'])
        if k == 'big': return self.pick([r'\big', r'\Big', r'\bigl', r'\bigr', r'\Biggm', r'\bigg', r'\Biggl', r'\Bigr']) + self.delim()
        if k == 'choice': return r'\mathchoice' + A() + A() + A() + A()
        if k == 'misc': return self.pick([r'\prescript', r'\genfrac()', r'\genfrac{[}{]}{0pt}{1}', r'\genfrac{}{}{}{}', r'\genfrac(]{2pt}{}', r'\sideset', r'\substack', r'\cramped', r'\mathstrut', r'\mathllap', r'\mathrlap', r'\mathclap', r'\smash[b]', r'\raisebox{2pt}', r'\mathrm', r'\boldsymbol', r'\mathbb', r'\mathcal', r'\mathfrak', r'\mathbf', r'\bm', r'\mathit', r'\mathsf', r'\mathtt', r'\mathscr', r'\symbf', r'\mathnormal']) + A() + self.pick(['', A(), A() + A()])
        if k == 'ref': return self.pick([r'\eqref{l%d}' % self.r.randint(0, 3), r'\ref{l1}', r'\label{l2}', r'\tag{5}', r'\nonumber ', r'\hline ', r'\eqref{un}'])
        if k == 'prime': return self.atom(d) + "'" * self.r.randint(1, 5) + self.pick(['', '^' + A(), '_' + A(), r'\prime '])
        if k == 'kind': return self.kind(self.pick(sorted(BYKIND))) + A()
        if k == 'stray': return self.pick([r'\url', r'\href', r'\ensuremath', r'\verb', r'\char', r'\limits', r'\nolimits', r'\middle|', r'\right)', r'\left(', '}', '{', '^', '_', '&', r'\\', r'\end{matrix}', r'\begin{matrix}', '$', '#1', '#', '\\'])
        return self.kind('accent', 'oset', 'opname', 'bcmd', 'overlay', 'xarrow', 'cspace') + A()

    def seq(self, d, n=None):
        out = ''
        for _ in range(self.r.randint(0, n or 3)):
            if d > 0 and self.r.random() < .45:
                out += self.construct(d)
            else:
                out += self.atom(d)
            if self.r.random() < .1:
                out += self.pick([' ', '\n', '% x\n ', '  '])
        return out

    def mutate(self, s):
        for _ in range(self.r.randint(1, 2)):
            i, j = sorted((self.r.randint(0, len(s)), self.r.randint(0, len(s))))
            k = self.r.randint(0, 3)
            if k == 0: s = s[:i] + s[i + 1:]
            elif k == 1: s = s[:i] + self.pick(['{', '}', '^', '_', '&', '\\\\', ' ', '%', "'", '[', ']', '\\', '#1', '$']) + s[i:]
            elif k == 2 and j - i < 12: s = s[:j] + s[i:j] + s[j:]
            elif k == 3 and j - i < 12: s = s[:i] + s[j:]
        return s

    def snippet(self, d=3, n=4):
        s = self.seq(d, n)
        if self.r.random() < self.stray:
            s = self.mutate(s)
        return s

    def session(self, i, nops=1, d=3):
        cfg = {}
        if self.r.random() < .25: cfg['ignore-unknown-commands'] = True
        if self.r.random() < .15: cfg['global-group'] = True
        if self.r.random() < .15: cfg['max-expansions'] = self.r.randint(0, 6)
        if self.r.random() < .1: cfg['id-prefix'] = 'p-'
        if self.r.random() < .15: cfg['unicode-substitution'] = 'never'
        if self.r.random() < .15: cfg['allow-unreliable-rendering'] = True
        macros = []
        if self.r.random() < self.defs:
            for _ in range(self.r.randint(1, 3)):
                macros.append([self.pick(USER + ['1', '+']), self.seq(1, 3) + self.pick(['', '#1', '#2#1', r'\a ', r'\b '])])
        ops = []
        for _ in range(nops):
            k = self.r.random()
            blk = self.r.random() < .6
            if k < .7 or nops == 1: ops.append({'op': 'global', 'src': self.snippet(d), 'block': blk})
            elif k < .8: ops.append({'op': 'local', 'src': self.snippet(d), 'block': blk})
            elif k < .9: ops.append({'op': 'all', 'items': [{'src': self.snippet(d), 'block': blk} for _ in range(self.r.randint(0, 3))]})
            else: ops.append({'op': 'reset'})
        return {'id': i, 'config': cfg, 'macros': macros, 'ops': ops}


def usable(s):
    """Are all characters known to the specification?"""
    return all(ord(c) < 128 or c in V['u8'] for c in s)


# ------------------------------------------------------------------------------------- constructs in constructs
# @ is an argument, which may be written with or without braces; § is a place for any sequence.

CONSTRUCTS = [
    '{§}', 'a^@', 'b_@', 'c_@^@', "d'^@", r'\frac@@', r'\tfrac@@', r'\dfrac@@', r'\cfrac@@', r'\binom@@', r'\dbinom@@', r'\sqrt@', r'\sqrt[§]@', r'\overset@@', r'\underset@@', r'\stackrel@@',
    r'\overline@', r'\underline@', r'\underbrace@_@', r'\overbrace@^@', r'\overbracket@', r'\hat@', r'\widehat@', r'\dot@', r'\vec@', r'\not@', r'\slashed@', r'\cancel@', r'\boxed@', r'\phantom@', r'\vphantom@', r'\hphantom@',
    r'\mathbin@', r'\mathrel@', r'\mathop@_@', r'\mathop@\limits^@', r'\mathord@', r'\mathopen@', r'\mathclose@', r'\mathpunct@', r'\mathinner@', r'\sum_@^@', r'\sum\limits^@', r'\int\nolimits_@', r'\lim_@', r'\int\limits_@^@',
    r'\operatorname*{q}_@', r'\xrightarrow@', r'\xrightarrow[§]@', r'\xlongequal@', r'\mathbf@', r'\mathrm@', r'\mathcal@', r'\mathit@', r'\mathbb@', r'\mathfrak@', r'\mathsf@', r'\boldsymbol@', r'\mathnormal@',
    r'\left(§\middle|§\right)', r'\left.§\right]', r'\begin{matrix}§&§\\§\end{matrix}', r'\begin{cases}§&§\\§\end{cases}', r'\begin{array}{c|r}§&§\\\hline §\end{array}', r'\begin{aligned}§&§\\§\end{aligned}',
    r'\begin{align*}§&§\\§\end{align*}', r'\begin{dcases}§&§\end{dcases}', r'\begin{gathered}§\\§\end{gathered}', r'\begin{subarray}{l}§\\§\end{subarray}', r'\substack{§\\§}', r'\mathchoice@@@@', r'\genfrac(]{1pt}{2}@@', r'\genfrac{}{}{}{}@@',
    r'\prescript@@@', r'\sideset{_@}{^@}\sum', r"\sideset{}{'}\prod_@", r'\smash@', r'\mathllap@', r'\mathclap@', r'\cramped@', r'\textcolor{red}@', r'{\color{blue}§}', r'{§\over §}', r'{§\choose §}', r'{\bf §}', r'{\rm §}', r'{\displaystyle §}',
    r'{\scriptstyle §}', r'{\textstyle §}', r'{\scriptscriptstyle §}', r'\pmod@', r'\mod@', r'\pod@', r'\def\a{§}\a ', r'\def\b#1{#1§}\b@', r'\def\q#1#2{#2#1^#2}\q@@', r'\Set{§|§}', r'\set{§|§}', r'\bra@', r'\Braket{§|§}', r'\ket@', r'\text@',
    'x_{y_§}', 'x^{y^§}', 'x_{y^§_@}', r'x^{\displaystyle §}', r'x^{\frac§@}', r'\frac{x^§}@', r'\sideset{}{^@}\int\limits_@', r'\sideset{_@}{}\sum\nolimits_@', r'\sideset{_@}{^@}§', r'\prescript{}@§', r'\lim\nolimits_@^@',
    r'\gdef\d#1#2{{#1}_#2}\d@@', r'\let\e=\frac\e@@', r'\operatorname{n}§', r'\bigl(§\bigr)', r'\Big|§', r'\bmod§', r'\raisebox{1pt}@', r'\mathstrut§', r'\Biggl\lfloor§', r'\quad§', r'\limits§', r'~§', r'\kern1pt§', r'\hspace{1em}§', r"'§"]

TEXTS = ['{§}', r'\text@', r'\textbf@', r'\textit@', r'\emph@', r'\textrm@', r'\texttt@', r'\textsf@', r'\textsc@', r'\underline@', r'\sout@', r'\textnormal@', r'\mbox@', r'\large §', r'{\small §}', r'\raisebox{1pt}@', r'\raisebox{1em}@', r"\'@", r'\"@', r'\^@', r'\c @', '§ §', '§  %c\n §',
         r'\def\a{§}', r'\ss §', r'\&§', r'{}§', r'~§', r'\Large{§}', r'1§2']


def fill(r, t, parts, bare=.3):
    """The template with its holes filled from the iterator; an argument without braces where that is (or may be) something else."""
    out = ''
    for c in t:
        if c == '§':
            out += next(parts)
        elif c == '@':
            p = next(parts)
            out += p if p and r.random() < bare else '{' + p + '}'
        else:
            out += c
    return out


def forever(f):
    while True:
        yield f()


def nested(r, n, probes, outer=None, inner=None, constructs=CONSTRUCTS, depth=2, bare=.3, tail=True):
    """n snippets: one construct in another at each place in turn, and what comes after them."""
    outer, inner = outer or constructs, inner or constructs
    probe = lambda: r.choice(probes)
    every = [(a, i, b) for a in outer for i in range(sum(c in '@§' for c in a)) for b in inner]
    if n < len(every):
        every = r.sample(every, n)
    for a, i, b in every[:n]:
        b = fill(r, b, forever(probe), bare)
        for _ in range(depth - 2):
            t = r.choice(constructs)
            k = sum(c in '@§' for c in t)
            j = r.randrange(k) if k else 0
            b = fill(r, t, iter([b if x == j else probe() for x in range(k)]), bare)
        k = sum(c in '@§' for c in a)
        yield fill(r, a, iter([(b + (probe() if r.random() < .5 else '') if x == i else probe()) for x in range(k)]), bare) + (probe() if tail else '')


def balanced(s):
    """The snippet without surplus closers, and with the missing ones."""
    import re
    out, stack = [], []
    for t in re.findall(r'\\(?:begin|end)\{[a-z*]+\}|\\(?:left|right|middle)(?:\\[a-z]+|\\.|.)|\\[A-Za-z]+|\\.|.', s, re.S):
        close = None
        if t == '{': stack.append('}')
        elif t.startswith(r'\begin{'): stack.append(r'\end' + t[6:])
        elif re.match(r'\\left(?![a-z])', t): stack.append(r'\right)')
        elif t == '}' or t.startswith(r'\end{') or re.match(r'\\right(?![a-z])', t):
            same = lambda a: a == t or a == r'\right)' and t.startswith(r'\right')
            if not any(map(same, stack)):
                continue
            while not same(stack[-1]):
                out.append(stack.pop())
            stack.pop()
        out.append(t)
    return ''.join(out + stack[::-1])


def damaged(r, s):
    """The snippet with one bracket of any kind missing, doubled, or replaced by another one."""
    import re
    toks = re.findall(r'\\(?:begin|end)\{[a-z*]+\}|\\(?:left|right|middle)(?:\\[a-z]+|.)|\\[A-Za-z]+\s?|\\.|.', s, re.S)
    br = [i for i, t in enumerate(toks) if t in '{}[]^_&' or re.match(r'\\(begin|end|left|right|middle)', t)]
    if not br:
        return s + r.choice(['}', '{', r'\right)'])
    i = r.choice(br)
    k = r.random()
    if k < .5: toks[i] = ''
    elif k < .7: toks[i] *= 2
    else: toks[i] = toks[r.choice(br)]
    return ''.join(toks)
