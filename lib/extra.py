"""The properties which need more than sessions: what leaves the converter, documents, the tool, the Python module."""
import json, os, random, re, shutil, subprocess
import gen, markup, mc, run as runner
from props import *
from views import *

HOSTILE = ['<', '>', '&', '"', "'", '<b>', '</math>', '</mtext>', '<script>', '"x="', "' onclick='", '&lt;', '&amp', '&#60;', ']]>', '<!--', '-->', '/>', '=', '`', r'\&', r'\&lt;', r'\#', r'\_', r'\%', r'\$', r'\{', r'\lt ', r'\gt ', r'\"', '--', '``']
MULTI = ['é', 'α', '☃', '😀', '𝔸', '\u0301', '\u00a0', '\u200b', '…']
# places where input may reach the output or an error
PLACES = [r'\text{%s}', r'\mbox{a%sb}', r'\textbf{%s}', r'\emph{%s}', r'\textit{\underline{%s}}', r'\operatorname{%s}', r'\operatorname*{%s}_a', r'\mathrm{%s}', r'\begin{align}a\tag{%s}\end{align}', r'\begin{align}a\tag*{%s}\\b\end{align}',
          r'\begin{align}a\label{%s}\end{align}\eqref{%s}', r'\begin{equation}\label{%s}x\tag{%s}\end{equation}\eqref{%s}', r'\eqref{%s}', r'\ref{%s}', r'\url{%s}', r'\href{%s}{%s}', r'\color{%s}x', r'\textcolor{%s}{%s}', r'\color[HTML]{%s}x',
          r'\left%s a\right%s', r'\big%s', r'\bigl%s a\bigr%s', r'\middle%s', r'x^{%s}_{%s}', r'%s', r'a%sb', r'\sqrt[%s]{%s}', r'\frac{%s}{%s}', r'\not%s', r'\overset{%s}{%s}', r'\mathbf{%s}', r'\mathbb{%s}', r'\boldsymbol{%s}', r'\begin{%s}a\end{%s}',
          r'\begin{array}{%s}a\end{array}', r'\hspace{%s}', r'\kern%s', r'\kern1%s', r'\mspace{1%s}', r'\newcommand{\%s}{x}', r'\newcommand{\a}[%s]{x}', r'\def\a#%s{x}', r'\def\a{%s}\a', r'\newcommand{\a}[1]{#1}\a{%s}', r'\let\a%s\a', r'\%s', r'\zz%s',
          r'\genfrac%s%s{1pt}{1}{a}{b}', r'\genfrac(){%s}{1}{a}{b}', r'\begin{matrix}%s&%s\\%s\end{matrix}', r'\raisebox{%s}{a}', r'\text{\%s}', r"\text{\'%s}", r'\text{\textbf%s}', r'\sum\limits%s', r'\xrightarrow[%s]{%s}', r'\mathchoice{%s}{%s}{%s}{%s}',
          r'\prescript{%s}{%s}{%s}', r'\substack{%s\\%s}', r'\cancel{%s}', r'\boxed{%s}', r'\phantom{%s}', r'\pmod{%s}', r'\bmod%s', r"x%s'%s", r'\sideset{%s}{%s}\sum', r'\begin{cases}%s\end{cases}', r'%% %s', r'\char%s', r'\verb|%s|', r'\\[%s]', r'\begin{matrix}a\\[%s]b\end{matrix}']
UNKNOWN = [r'\zz', r'\zz<', r'\zzé', r'\é', r'\<', r'\>', r'\&', r'\"', r"\'", r'\☃', r'\😀', r'\`', r'\begin', r'\zz@', r'\,<']


def configs(rnd):
    c = {}
    def some(p, k, *vs):
        if rnd.random() < p:
            c[k] = rnd.choice(vs)
    some(.5, 'pretty-print', 'always', 'auto', 'never')
    some(.4, 'annotation', True)
    some(.3, 'xml-namespace', True)
    some(.4, 'ignore-unknown-commands', True)
    some(.3, 'css-classes', {'unknown-command': 'unk'}, {'unknown-command': ''}, {'unknown-command': 'a b-c'})
    some(.4, 'indentation', 'tab', 0, 2, 7)
    some(.3, 'id-prefix', 'p-', 'eq:', 'ä')
    some(.3, 'allow-unreliable-rendering', True)
    some(.3, 'unicode-substitution', 'never')
    some(.1, 'max-expansions', 0, 2)
    some(.1, 'global-group', True)
    return c


class WellFormed(View):
    """Errors and outputs are both fine, but not a panic, nor anything that is not well-formed; and the text is the expected one."""
    def ok(self, es, wref, wcmd):
        return ''.join(skel(e, keep_ids) for e in es)

    def diff(self, pred, obs, strict):
        if 'all' in obs:
            for i, (p, o) in enumerate(zip(pred.get('all', []), obs['all'])):
                d = self.diff(p, o, strict)
                if d:
                    return 'snippet %d: %s' % (i, d)
            return None
        if obs.get('ok') == '':
            return None            # a reset
        o = norm(obs)
        if o[0] == 'bad':
            return o[1]
        if 'skip' in pred or 'done' in pred or not self.texts or o[0] != 'ok' or 'ok' not in pred:
            return None
        p = norm(pred)
        excuse(p[1], o[1])
        a, b = self.ok(*p[1:]), self.ok(*o[1:])
        return None if a == b else 'expected %s got %s' % (a, b)

    texts = False

    def diff_session(self, pred, obs, strict):
        if 'crash' in obs:
            return (0, 'the process died: %s' % obs['crash'])
        if 'new' in obs:
            return (0, obs['new']['panic']) if 'panic' in obs['new'] else None
        if pred and ('skip' in pred[0] or 'new' in pred[0]) and len(pred) == 1:
            pred = [{'skip': True}] * len(obs['ops'])
        for i, o in enumerate(obs['ops']):
            d = self.diff(pred[i] if i < len(pred) else {'skip': True}, o, strict)
            if d:
                return (i, d)
        return None


class C09(Prop):
    view = WellFormed()
    focus = {'scripts': 4, 'env': 4, 'text': 4, 'misc': 4, 'wrap': 4}
    sessions = (300, 4000)
    general = (300, 4000)
    nops = 2

    def scopes(self, deep):
        arity = words('a', '{', '}', '^', '_', "'", r'\sum ', r'\limits ', '+')
        wraps = words(r'\overset', r'\underbrace', r'\hat', r'\sqrt', r'\frac', r'\xrightarrow', 'a', '{', '}', '^', '_')
        pre = words(r'\prescript', r'\sideset', '{', '}', 'a', '^b', '_c', r'\sum ', '{}')
        tab = words('a', '&', r'\\', r'\hline ', r'\begin{array}{c|}', r'\end{array}', '{', '}', r'\tag{t}')
        fr = words(r'\over ', r'\genfrac(]{0pt}{}', r'\binom', r'\mathchoice', '{', '}', 'a', r'\displaystyle ')
        misc = words(r'\cancel', r'\phantom', r'\smash', r'\raisebox{1pt}', r'\text', r'\not', '=', '{', '}', 'a', r'\zz ')
        return [scope('arity', arity, 4 + deep), scope('wraps', wraps, 4), scope('pre', pre, 4 + deep), scope('tab', tab, 4, pre=r'\begin{align}', post=r'\end{align}'),
                scope('fractions', fr, 4 + deep), scope('misc', misc, 4, config={'ignore-unknown-commands': True})]

    def hostile(self, rnd, n):
        """Sessions with one or two strange strings each, in every place."""
        out = []
        for p in PLACES:
            for h in HOSTILE + MULTI:
                if rnd.random() < n:
                    out.append(p.replace('%%', '%').replace('%s', h))
        for u in UNKNOWN:
            for p in (r'%s', r'\sqrt{%s}', r'\text{%s}', r'x^%s', r'\newcommand{\a}{%s}\a', r'\frac%s%s'):
                out.append(p.replace('%s', u))
        return [{'config': {'ignore-unknown-commands': rnd.random() < .8, 'id-prefix': rnd.choice(['', 'p-'])}, 'macros': [], 'ops': [{'op': 'global', 'src': s, 'block': rnd.random() < .5}]} for s in out]

    def check(self, run):
        runner.core(run, self)
        deep, rnd = run.deep, random.Random(run.seed * 99991 + 3)
        # the specification says what the hostile strings become
        texts = C09()
        texts.view = WellFormed()
        texts.view.texts = True
        runner.replay(run, texts, [('hostile', True, self.hostile(rnd, 1 if deep else .35))])
        # everything else only has to be well-formed, under all configurations
        ss = [dict(s, config=dict(s['config'], **configs(rnd))) for s in self.hostile(rnd, 1 if deep else .5)]
        g = gen.Gen(rnd, stray=.05)
        ss += [dict(g.session(0, rnd.randint(1, 3), 4), config=configs(rnd)) for _ in range(60000 if deep else 6000)]
        shapes = ['{a}', 'a', '{}', '{a+b}', '{%s}' % MULTI[0], MULTI[3], '[a]', '', '^', '_a', r'\right)', '{#1}', '1', '(', '{<}', '{1pt}', '=', '{red}', r'\zz', '{c}', "'"]
        for many in ('%\n' * 20000, '% <\n \n' * 9000 + 'x', 'x' * 30000, ' ' * 30000, "x'^" * 400, '+' * 20000, 'a&' * 3000, '\\\\' * 3000, '\\a' * 5000, '{}' * 20000, '^{x}' + "y'" * 5000, '\\text{' + 'é ' * 20000 + '}', '1' * 20000,
                     '\\def\\a{x}' * 3000, '\\begin{align}' + 'a&b\\\\' * 3000 + '\\end{align}', '\\label{a}' * 50, '{' * 300 + 'x' + '}' * 300, '\\left(' * 200 + '\\right)' * 200, '\\not' * 2000, '\\bf ' * 3000, 'x\\over ' * 50, '[' * 5000, '\\hat' * 300 + 'x'):
            ss.append({'config': {}, 'macros': [], 'ops': [{'op': 'global', 'src': many, 'block': True}]})
        for n in gen.NAMES:
            for _ in range(24 if deep else 3):
                pre = rnd.choice(['', '', '', 'x^', r'\text{', r'\begin{matrix}', r'\left(', r'\mathbf', '{'])
                ss.append({'config': configs(rnd), 'macros': [], 'ops': [{'op': 'global', 'src': pre + '\\' + n + ''.join(rnd.choice(shapes) for _ in range(rnd.randint(0, 4))) + rnd.choice(['', '}', r'\end{matrix}', r'\right)', ' é']), 'block': rnd.random() < .5}]})
        for e in gen.ENVS:
            for _ in range(60 if deep else 8):
                ss.append({'config': configs(rnd), 'macros': [], 'ops': [{'op': 'global', 'src': r'\begin{%s}%s%s\end{%s}' % (e, rnd.choice(['', '{c}', '{c|c}', '[t]', '{é}']), g.seq(3, 6), e), 'block': rnd.random() < .5}]})
        soup = HOSTILE + MULTI + ['\\', '\\', '{', '}', '{', '}', '^', '_', '#', '1', 'pt', 'em', ' ', '%', '\n', '[', ']', '$', '~', '&', 'a', 'begin', 'end', r'\begin{', r'\text{', r'\color{', r'\label{', r'\def', r'\newcommand', r'\left', r'\kern', "'", '\t', '\r', '\0', '\x7f', '\ufeff']
        for _ in range(40000 if deep else 4000):
            ss.append({'config': configs(rnd), 'macros': [[rnd.choice(['a', 'é', '<', '']), ''.join(rnd.choice(soup) for _ in range(3))]] if rnd.random() < .1 else [],
                       'ops': [{'op': 'global', 'src': ''.join(rnd.choice(soup) for _ in range(rnd.randint(1, 14))), 'block': rnd.random() < .5}]})
        ss = [dict(s, id=i) for i, s in enumerate(ss)]
        obs, outputs = mc.run_impl(ss), []
        for s in ss:
            o = obs[s['id']]
            d = self.panics(o)
            if d:
                run.violation(d, {'session': runner.strip(s), 'observed': o})
            for r in o.get('ops', []):
                outputs += [(x['ok'], s) for x in r.get('all', [r]) if x.get('ok')]
        run.count('judged', len(outputs))
        for out, s, why in markup.judge(run, outputs):
            run.violation('not well-formed (%s): %s' % (why, out[:600]), {'session': runner.strip(s), 'observed': out})

    def panics(self, o):
        if 'crash' in o:
            return 'the process died: %s' % o['crash']
        for r in ([o['new']] if 'new' in o else o['ops']):
            for x in r.get('all', [r]):
                if 'panic' in x:
                    return 'panic: %s' % x['panic']


class Ranges(View):
    """The same error has to be at the same place."""
    def diff(self, pred, obs, strict):
        if 'all' in pred and 'all' in obs:
            for i, (p, o) in enumerate(zip(pred['all'], obs['all'])):
                d = self.diff(p, o, strict)
                if d:
                    return 'snippet %d: %s' % (i, d)
            return None
        if 'err' in pred and 'err' in obs and pred['err'] == obs['err'] and (pred['s'], pred['e']) != (obs['start'], obs['end']):
            return 'the error %r: expected at %d..%d, got %d..%d' % (pred['err'], pred['s'], pred['e'], obs['start'], obs['end'])
        if 'err' in obs and not obs['span_ok']:
            return 'the error %r is at %d..%d' % (obs['err'], obs['start'], obs['end'])
        return None

    def diff_session(self, pred, obs, strict):
        if 'crash' in obs:
            return None
        if 'new' in obs:
            return self.diff(pred[0].get('new', {}) if pred else {}, obs['new'], strict) and (0, self.diff(pred[0].get('new', {}) if pred else {}, obs['new'], strict))
        if pred and ('skip' in pred[0] or 'new' in pred[0]) and len(pred) == 1:
            pred = [{}] * len(obs['ops'])
        for i, (p, o) in enumerate(zip(pred, obs['ops'])):
            d = self.diff(p, o, strict)
            if d:
                return (i, d)
        return None


def flat(html):
    """HTML as ErrorText.tla has it."""
    out = []
    for t in markup.tokens(html, True):
        if t[0] == '<':
            out += ['<' + t[1]] + ['%s=%s' % a for a in t[2]] + (['/'] if t[3] else [])
        else:
            out.append({'>': '>', 't': 'text:', 'bad': 'bad:'}[t[0]] + t[1])
    return out


class C18(Prop):
    view = Ranges()
    focus = {'stray': 10, 'define': 5, 'env': 4, 'text': 4, 'space': 4, 'color': 4, 'fence': 3, 'infix': 3, 'ref': 3, 'misc': 3}
    sessions = (500, 6000)
    general = (300, 4000)
    nops = 2
    sweep = (r'é\0', r'\0^^', r'\left\0 a', r'é\big\0', r'\begin{array}{\0}', r'\kern\0', r'\text{é\0}', r'\newcommand\1{é}', r'\let\x\0é', r'\operatorname{é\0}', r'\color{\0}', r'\tag{\0}', r'\sqrt[\0', r'é\frac\0', r'{\0', r'\hspace{\0}', r'\0{é}{', r'\0{1}{é', r'\begin{\0}', r'\0[', r'\def\x\0', r'\newcommand{\x}[\0]{}')

    def scopes(self, deep):
        u = 'é'
        a = words(u, r'\zz', '}', '{', '^', r'\right)', r'\end{matrix}', '&', r'\text')
        b = words(u, r'\newcommand', r'\def', r'\a', '{', '}', '#2', '[1]', '[x]')
        c = words(r'\sqrt', '[', ']', u, r'\color', '{' + u + '}', r'\hspace', '{1pt', '}')
        d = words(r'\begin', '{' + u + '}', '{matrix}', r'\end', r'\left', u, r'\big', '$', r'\limits ')
        e = words(r'\m ', r'\n{' + u + '}', r'\o ', u, '{', '}', '^')
        t = words(r'\textbf', '{', '}', u, '$', '^', r"\'", r'\alpha ', r'\zz')
        n = words('\\' + u, r'\a' + u, '#' + u, '#', '\\', r'\left' + u, r'\kern1' + u, r'\tag{x}', r'\label{' + u + '}', r'\over ')
        return [scope('braces', a, 4), scope('definitions', b, 4 if deep else 3), scope('arguments', c, 4), scope('markers', d, 4), scope('text', t, 4 if deep else 3, pre=r'\text{'),
                scope('macros', e, 4 + deep, pre=r'é\def\m{x^}\def\n#1{\left#1}\def\o{^y^z}'), scope('names', n, 3 + deep),
                scope('lengths', words('1', '.', '-', '+', 'pt', 'mu', 'e', 'm', ' ', '{', '}', u), 4 if deep else 3, pre=r'é\kern'), scope('lengths-arg', words('1', '.', '-', '+', 'pt', 'mu', 'e', 'm', ' ', '{', '}', u), 4 if deep else 3, pre=r'é\hspace{'),
                scope('lengths-row', words('1', '.', '-', 'pt', 'mu', 'em', ' ', ']', '[', u), 4 if deep else 3, pre=r'\begin{matrix}a\\[', post=r'\end{matrix}'), scope('lengths-rule', words('1', '.', '-', 'pt', 'mu', 'em', ' ', '}', '{', u), 4 if deep else 3, pre=r'\genfrac(){', post='{a}{b}'),
                scope('params', words('#1', '#0', '#', '1', '0', '[', ']', '{', '}', u), 4 if deep else 3, pre=r'\newcommand{\a}'), scope('params-def', words('#1', '#2', '#9', '#', '1', '{', '}', u, r'\b'), 4 if deep else 3, pre=r'\def\a'),
                scope('batch', words(u + r'\zz', u, r'\gdef\a{\zz}' + u, u + r'\a '), 3, kinds=['all'])]

    def fixed(self):
        return C07().fixed() + C08().fixed() + C10().fixed() + self.places()

    # what stands in the place of an argument, of every shape in which the end of a token and the end of the argument differ
    SHAPES = ('{( [ ) }', '{a b c }', '{ab%\n}', '{ab{c} }', '{ a é b }', '{é}', '{ }', '{  a}', '{a$b }', '{a&b  }', r'{a\zz b }', r'{a b\zz }', '{a b', 'é é', '{1 0 pt }', '{10 p t}', '{1 0 p t  }',
              '{x y 1 }', r'{\text{é} }', r'{a\right) }', '{ab}} ', r'{ab^^ }', r'{\m é }', r'\m', r'{a\\ b }', '{#1 }', r'{\a#1 }')

    def places(self):
        from props import C05
        out = []
        for a in self.SHAPES + tuple(x[1:-1] for x in self.SHAPES[:17]):
            for h in C05.HOLES:
                if '§' in h:
                    out.append(session(r'é\def\m{a b c }' + h.replace('##', '#').replace('§', a) + 'é'))
        return out

    def check(self, run):
        runner.core(run, self)
        deep, rnd = run.deep, random.Random(run.seed * 4447 + 1)
        ss = []
        for p in PLACES:
            for h in HOSTILE + MULTI:
                if rnd.random() < (1 if deep else .4):
                    s = rnd.choice(['', 'é', '😀é ', '<', '"&é']) + p.replace('%%', '%').replace('%s', h) + rnd.choice(['', '}', 'é', '^^', r'\zz<'])
                    ss.append({'config': {}, 'macros': [], 'ops': [{'op': 'global', 'src': s, 'block': rnd.random() < .5}]})
                if rnd.random() < .05:
                    ss.append({'config': {}, 'macros': [[rnd.choice(['a', 'é', '<a', '']), rnd.choice(['é', '<', '']) + p.replace('%s', h) + rnd.choice(['', '}', '#0'])]], 'ops': []})
        g = gen.Gen(rnd, focus=self.focus, stray=.5)
        for _ in range(8000 if deep else 800):
            s = g.session(0, 1, 2)
            for o in s['ops']:
                if 'src' in o:
                    o['src'] = rnd.choice(['', '', '€', '😀', '\n', '<b>']) + o['src']
            ss.append(s)
        soup = HOSTILE + MULTI + ['\\', '\\', '{', '}', '{', '}', '^', '#', '1', ' ', '%', '\n', '$', '&', r'\begin{', r'\text{', r'\color{', r'\def', r'\newcommand', r'\left', r'\kern', '\t', '\r\n']
        for _ in range(8000 if deep else 800):
            ss.append({'config': {}, 'macros': [], 'ops': [{'op': 'global', 'src': ''.join(rnd.choice(soup) for _ in range(rnd.randint(1, 9))), 'block': True}]})
        ss = [dict(s, id=i, reports=True) for i, s in enumerate(ss)]
        obs, recs, of = mc.run_impl(ss), [], []
        for s in ss:
            o = obs[s['id']]
            if 'crash' in o:
                run.violation('the process died: %s' % o['crash'], {'session': runner.strip(s)})
                continue
            for src, x in [(o['new'].get('def', ''), o['new'])] if 'new' in o else [(p.get('src'), r) for p, r in zip(s['ops'], o['ops'])]:
                if 'err' not in x:
                    continue
                for k in ('msg', 'html', 'html_inline', 'html_nocls', 'report'):
                    if not isinstance(x[k], str):
                        run.violation('rendering the error %r panics: %s' % (x['err'], x[k]), {'session': runner.strip(s), 'observed': x})
                        break
                else:
                    recs.append({'id': len(recs), 'src': list(src), 'len': [len(c.encode()) for c in src], 'start': x['start'], 'end': x['end'], 'err': x['err'], 'msg': x['msg'],
                                 'html': flat(x['html']), 'html_inline': flat(x['html_inline']), 'html_nocls': flat(x['html_nocls']),
                                 'report': x['err'] in x['report'] and x['display'] == x['err']})
                    of.append((s, x))
        d, bad = mc.scratch('errors'), []
        try:
            f = os.path.join(d, 'jobs.json')
            with open(f, 'w', encoding='utf8') as h:
                json.dump(recs, h)
            r = mc.tlc('ErrorText.tla', 'ErrorText.cfg', {'JOBS': f}, workers=mc.CORES, sink=bad.append)
            run.states += r.distinct
            run.transitions += r.states
        finally:
            shutil.rmtree(d, ignore_errors=True)
        run.traces += len(recs)
        run.count('errors', len(recs))
        for b in bad:
            s, x = of[b['id']]
            run.violation('the error %r at %d..%d: wrong %s' % (x['err'], x['start'], x['end'], ', '.join(sorted(b['faults']))), {'session': runner.strip(s), 'observed': x})


def square(toks):
    """Tokens as Emit.tla has them."""
    return [['<', t[1], [list(a) for a in t[2]], t[3]] if t[0] == '<' else [t[0], t[1], [], False] for t in toks]


class C17(Prop):
    DOCS = ['', 'x', 'xy', r'\frac{a}{b}', r'a+\begin{pmatrix}1&2\\&\end{pmatrix}', r'\begin{align}a\label{p}&b\\c\tag{T}\label{q r}\\d\nonumber\end{align}\eqref{p}\eqref{q r}', r'\begin{multline}a\\b\label{m}\end{multline}',
            r'\text{a <b> \textbf{c d} }\text{  }', r'\zz+\frac{\yy}{2}^\xx', r'\prescript{a}{b}{X}_c^d\sideset{_1^2}{_3^4}\sum', r'\eqref{nowhere}\sqrt[3]{x}\mathbf{A\bf b}', r'x<y>"z" & \{', r'\sum_a^b\left(\frac12\middle|\hat x\right)\displaystyle\int',
            r'\begin{array}{c|c}\hline a&b\\\hdashline c\end{array}\begin{cases}x&y\\z\end{cases}', r'\color{red}a\cancel{b}\boxed{c}\phantom{d}\raisebox{2pt}{e}\mathllap{f}', r'\overbrace{a}^b\underset{c}{d}\xrightarrow[a]{b}\operatorname{a b}', r'\begin{equation}é😀\end{equation}',
            r'a\quad b\,c\bmod d\pmod e', 'a % c\n b', r'\begin{gather}\begin{aligned}a&b\\c\end{aligned}\\\substack{a\\b}\end{gather}', r'\mathchoice{a}{b}{c}{d}\cramped{x}\smash{y}', r'\operatorname*{a}\limits_b\text{\underline{a}\texttt{b}\emph{c}\textsc{d}\textsf{e}\sout{f}\large g}']

    def opts(self, **kw):
        d = {'pretty-print': 'never', 'xml-namespace': False, 'annotation': False, 'id-prefix': '', 'css-classes': {'unknown-command': 'math-core-unknown-cmd'}, 'indentation': 4}
        d.update(kw)
        return d

    def every(self):
        for pp in ('never', 'always', 'auto'):
            for ns in (False, True):
                for ann in (False, True):
                    for pre in ('', 'eq:', 'ü-'):
                        for css in ('math-core-unknown-cmd', 'my unk', ''):
                            for ind in ((4, 1, 'tab', 0) if pp != 'never' else (4,)):
                                yield self.opts(**{'pretty-print': pp, 'xml-namespace': ns, 'annotation': ann, 'id-prefix': pre, 'css-classes': {'unknown-command': css}, 'indentation': ind})

    def check(self, run):
        deep, rnd = run.deep, random.Random(run.seed * 37 + 11)
        combos = list(self.every())
        jobs = []            # (options, session)
        for d in self.DOCS:
            for c in combos if deep else rnd.sample(combos, 40) + [c for c in combos if sum(c[k] != v for k, v in self.opts().items()) <= 1]:
                for b in (True, False):
                    jobs.append((c, {'macros': [], 'ignore': True, 'ops': [{'op': 'global', 'src': d, 'block': b}]}))
        for c in combos:
            s = [{'op': 'global', 'src': d, 'block': i % 2 == 0} for i, d in enumerate(self.DOCS)]
            jobs.append((c, {'macros': [], 'ignore': True, 'ops': s}))
            jobs.append((c, {'macros': [], 'ignore': False, 'ops': [{'op': 'all', 'items': s}, RESET] + s[::-1]}))
        g = gen.Gen(rnd, stray=.1, focus={'env': 4, 'text': 3, 'ref': 3})
        for _ in range(20000 if deep else 1500):
            s = g.session(0, rnd.randint(1, 2), 3)
            jobs.append((rnd.choice(combos), {'macros': s['macros'], 'ignore': s['config'].get('ignore-unknown-commands', False), 'ops': s['ops']}))
        if '#' in ''.join(re.findall(r'\\href\{([^}]*)', json.dumps([j[1]['ops'] for j in jobs]))):
            jobs = [j for j in jobs if r'\\href{#' not in json.dumps(j[1]['ops'])]
        ss = []
        for i, (c, s) in enumerate(jobs):
            for k, cfg in enumerate((self.opts(), c)):
                ss.append({'id': 2 * i + k, 'config': dict(cfg, **{'ignore-unknown-commands': s['ignore']}), 'macros': s['macros'], 'ops': s['ops']})
        obs = mc.run_impl(ss)
        recs, of = [], []
        for i, (c, s) in enumerate(jobs):
            a, b = obs[2 * i], obs[2 * i + 1]
            det = {'session': runner.strip(ss[2 * i + 1]), 'plain': a, 'observed': b}
            if 'crash' in a or 'crash' in b or 'new' in a or 'new' in b:
                if ('new' in a) != ('new' in b) or 'new' in a and self.but(a['new']) != self.but(b['new']):
                    run.violation('the options change whether the macros are accepted', det)
                continue
            for o, x, y in zip(s['ops'], a['ops'], b['ops']):
                if o['op'] == 'reset':
                    continue
                for src, block, p, q in zip([i['src'] for i in o['items']], [i['block'] for i in o['items']], x['all'], y['all']) if o['op'] == 'all' else [(o['src'], o['block'], x, y)]:
                    if self.but(p) != self.but(q):
                        run.violation('without the options %s, with them %s' % (self.but(p), self.but(q)), det)
                    elif 'ok' in p:
                        unit = '\t' if c['indentation'] == 'tab' else ' ' * c['indentation']
                        for opt, seen in ((self.opts(), p['ok']), (c, q['ok'])) if len(of) % 5 == 0 else ((c, q['ok']),):
                            recs.append({'id': len(recs), 'block': block, 'src': src, 'plain': square(markup.tokens(p['ok'])), 'seen': square(markup.tokens(seen)),
                                         'opt': {'pretty': opt['pretty-print'], 'ns': opt['xml-namespace'], 'ann': opt['annotation'], 'css': opt['css-classes']['unknown-command'], 'unit': unit, 'pre': opt['id-prefix']}})
                            of.append((det, seen))
        d, bad = mc.scratch('emit'), []
        try:
            f = os.path.join(d, 'jobs.json')
            with open(f, 'w', encoding='utf8') as h:
                json.dump(recs, h)
            r = mc.tlc('Emit.tla', 'Emit.cfg', {'JOBS': f}, workers=mc.CORES, sink=bad.append, heap='10g')
            run.states += r.distinct
            run.transitions += r.states
        finally:
            shutil.rmtree(d, ignore_errors=True)
        run.traces += len(recs)
        run.count('outputs', len(recs))
        for r in rnd.sample(recs, 4):
            run.sample({'source': r['src'], 'options': r['opt'], 'observed': of[r['id']][1][:600]})
        for b in bad:
            det, seen = of[b['id']]
            run.violation('expected %s, got %s in %s' % (b['want'][:300], b['got'][:300], seen[:600]), det)

    @staticmethod
    def but(o):
        """What the options must not change."""
        return json.dumps({k: (v if k != 'ok' else True) for k, v in o.items()}, sort_keys=True, ensure_ascii=False)



def cells(text):
    return [{'c': c, 'w': 1} for c in text]


def filler(n, k='w'):
    """A run of n ordinary characters."""
    return [{'c': k * n, 'w': n}]


DOLLARS = dict(io='$', ic='$', bo='$$', bc='$$')
PARENS = dict(io=r'\(', ic=r'\)', bo=r'\[', bc=r'\]')
DELIMS = [DOLLARS, PARENS, dict(io='|', ic='|', bo='||', bc='||'), dict(io='(', ic=')', bo='((', bc='))'), dict(io='«', ic='»', bo='«', bc='»»'), dict(io='<i>', ic='</>', bo='<b>', bc='</>'),
          dict(io='ab', ic='ab', bo='aba', bc='aba'), dict(io='$', ic='$', bo=r'\[', bc=r'\]'), dict(io='[', ic=']', bo='$$', bc='$$'), dict(io='x(', ic=')', bo='(', bc=')x'), dict(io='$$', ic='$$', bo='$', bc='$'), dict(io='<', ic='>', bo='<<', bc='>>>>'), dict(io='[', ic=']]]', bo='[[', bc=']'), dict(io='{{{', ic='}', bo='{', bc='}}}')]


class C15(Prop):
    def scope(self, id, d, esc, words, n, pre=(), post=()):
        return {'id': id, 'io': list(d['io']), 'ic': list(d['ic']), 'bo': list(d['bo']), 'bc': list(d['bc']), 'esc': esc,
                'words': [cells(w) if isinstance(w, str) else w for w in words], 'max': n, 'pre': cells(pre) if isinstance(pre, str) else list(pre), 'post': cells(post) if isinstance(post, str) else list(post)}

    def scopes(self, deep, rnd):
        out = []
        def add(name, d, words, n, pre=(), post=(), escs=(False, True)):
            for e in escs:
                out.append(self.scope('%s%d%s' % (name, len(out), '+esc' if e else ''), d, e, words, n, pre, post))
        add('dollars', DOLLARS, ['$', '\\', 'a'], 7 + deep)
        add('lines', DOLLARS, ['$$', '$', '\\', 'é', '\n'], 4 + deep)
        add('parens', PARENS, [r'\(', r'\)', r'\[', r'\]', '\\', 'a'], 4 + deep)
        add('stateful', DOLLARS, [r'$\begin{equation}x\label{p}\end{equation}$', '$', '$$', r'\eqref{p}', r'\gdef\m{y}', r'\m ', r'\zz<'], 4, escs=(False,))
        for d in DELIMS[2:]:
            ds = sorted(set(d.values()))
            add('other', d, ds + ['a', '\\'] if len(ds) < 4 or deep else ds + ['\\'], 5 if deep else 4)
        add('entities', DOLLARS, ['&', ';', 'lt', 'amp', '#38', 'b', '$'], 4 + deep, pre='&lt;$', post='$&gt;', escs=(False,))
        every = ['&%s;' % n for n in ('#34', 'quot', '#38', 'amp', '#39', 'apos', '#60', 'lt', '#62', 'gt', 'nbsp', '#x3c', 'LT', 'dollar', '', '#3')]
        add('names', PARENS, every, 2, pre=r'\(a', post=r'\)', escs=(False,))
        # around the sizes at which a search might be cut
        for size in (1024, 2048, 4096) if deep else (1024, 2048):
            for k in range(-5, 3):
                w = [rnd.choice(['w', 'w', 'é'])]
                f = filler((size + k) // len(w[0].encode()), w[0])
                add('long', DOLLARS, ['$', '$$', '\\', f], 3, pre=f, post=rnd.choice(['$a$', '$$a$$', '$']), escs=(rnd.random() < .5,))
                add('long', PARENS, [r'\(', r'\)', r'\[', r'\]', f], 3, pre=[*cells(r'\('), *f] if k % 2 else f, escs=(rnd.random() < .5,))
            for dl in DELIMS[2:] if size == 1024 or deep else ():
                ds = sorted(set(dl.values()))
                for k in range(-6, 4):
                    f = filler(size + k - (len(ds[0].encode()) if k % 2 else 0))
                    add('long', dl, ds + ['\\'], 1 + (k in (-2, -1, 0)), pre=cells(dl[rnd.choice(['io', 'bo'])]) + f, escs=(k % 2 == 0,))
                    add('long', dl, ds + ['\\'], 1, pre=f, post=rnd.choice([dl['io'] + 'a' + dl['ic'], dl['bo'] + 'a' + dl['bc'], '']), escs=(k % 2 == 0,))
        far = [cells('&'), cells(';'), cells('lt'), filler(rnd.choice([23, 24, 25, 30, 31, 32, 33]), 'b'), filler(300, 'b'), cells('&amp;'), cells('#60')]
        add('far', PARENS, far, 4 if deep else 3, pre=r'\(\begin{matrix}a&', post=r'; x &lt; c\end{matrix}\)', escs=(False,))
        # anything
        frag = ['&lt;', '&amp;', '&', ';', '&' + 'b' * 40, 'y;', '&gt;', '&amp;lt;', '&quot;', '&#38;', '\n', ' ', 'a', 'é', '😀', '<p>', '</p>', '\r\n', r'\frac12', 'x^2', r'\begin{align}a&b\\c\end{align}', r'\label{q}', r'\gdef\n{z}', r'\n ', r'\sqrt', '}', '{', '"', r'\eqref{q}', r'\zz', '\t']
        for i in range(9000 if deep else 900):
            d = rnd.choice(DELIMS)
            doc = []
            for _ in range(rnd.randint(1, 6)):
                k = rnd.choice('ib')
                body = ''.join(rnd.choice(frag) for _ in range(rnd.randint(0, 3)))
                doc += cells(rnd.choice([body, d[k + 'o'] + body + d[k + 'c'], d[k + 'o'] + body + d[k + 'c'], d[k + 'o'] + body + d[k + 'c'], '\\' + d[k + 'o'], rnd.choice(list(d.values())) if rnd.random() < .3 else 'word ']))
                if rnd.random() < .2:
                    doc += filler(rnd.choice([100, 1000, 1020, 1023, 1024, 1025, 3000]))
            add('doc', d, [], 0, pre=doc, escs=(rnd.random() < .4,))
        return out

    def check(self, run):
        deep, rnd = run.deep, random.Random(run.seed * 613 + 7)
        tool = mc.cli()
        scopes = self.scopes(deep, rnd)
        byid = {s['id']: s for s in scopes}
        d, got = mc.scratch('docs'), []
        try:
            f = os.path.join(d, 'jobs.json')
            with open(f, 'w', encoding='utf8') as h:
                json.dump(scopes, h)
            r = mc.tlc('Replacer.tla', 'Replacer.cfg', {'JOBS': f}, workers=mc.CORES, sink=got.append, heap='10g', timeout=6000)
            if r.violation:
                raise mc.Broken('the specification violates its own invariant: %s\n%s' % (r.violation, '\n'.join(r.lines[-40:])))
            run.states += r.distinct
            run.transitions += r.states
            got.sort(key=lambda g: (g['id'], g['ws']))
            # the conversions of the formulas
            ss = []
            for g in got:
                ops = [{'op': 'global', 'src': ''.join(p['x']), 'block': p['kind'] == 'block'} for p in g['out'] if p['kind'] != 'text']
                ss.append({'id': len(ss), 'config': {}, 'macros': [], 'ops': ops, 'reports': True})
            conv = mc.run_impl(ss)
            jobs = []
            for i, g in enumerate(got):
                s = byid[g['id']]
                doc = ''.join(c['c'] for part in [s['pre']] + [s['words'][w - 1] for w in g['ws']] + [s['post']] for c in part)
                fails = any('err' in o for o in conv[i].get('ops', []))
                for go_on in (False, True) if fails else (False,):
                    jobs.append((g, s, doc, conv[i], go_on))
            with mc.ThreadPoolExecutor(mc.CORES) as ex:
                seen = list(ex.map(lambda j: tool_run([tool] + self.options(j[1], rnd.random() < .5) + (['--continue-on-error'] if j[4] else []) + ['-'], d, j[2].encode()), jobs))
        finally:
            shutil.rmtree(d, ignore_errors=True)
        run.traces += len(jobs)
        run.count('documents', len(got))
        for (g, s, doc, c, go_on), (code, out, err) in zip(jobs, seen):
            want = self.expected(g, c, go_on)
            if want is None:
                continue            # a conversion which kills the process: C09 has it
            bad = None
            if 'html' in want:
                if code != 0:
                    bad = 'exit status %d (%s), expected %s' % (code, err[:300], want['html'][:600])
                elif out != want['html'] + '\n':
                    bad = 'expected %s got %s' % (want['html'][:600], out[:600])
            elif code != 2:
                bad = 'exit status %d, expected the error %r' % (code, want['err'])
            elif out:
                bad = 'output in spite of the error %r: %s' % (want['err'], out[:300])
            elif want['err'] not in plain(err):
                bad = 'expected the error %r, got %s' % (want['err'], err[:600])
            if bad:
                run.violation(bad, {'document': doc if len(doc) < 3000 else doc[:3000] + '...', 'options': self.options(s, False) + (['--continue-on-error'] if go_on else []), 'pieces': g['out'], 'result': g['res']})
        for i in rnd.sample(range(len(jobs)), 6):
            run.sample({'document': jobs[i][2][:300], 'options': self.options(jobs[i][1], False), 'pieces': short_(jobs[i][0]['out']), 'observed': seen[i][1][:300] or seen[i][2][:300]})

    @staticmethod
    def options(s, open_close):
        j = {k: ''.join(s[k]) for k in ('io', 'ic', 'bo', 'bc')}
        out = []
        for name, a, b in (('inline', j['io'], j['ic']), ('block', j['bo'], j['bc'])):
            if a != b or open_close:
                out += ['--%s-open=%s' % (name, a), '--%s-close=%s' % (name, b)]
            elif a != {'inline': '$', 'block': '$$'}[name]:
                out += ['--%s-del=%s' % (name, a)]
        return out + (['--ignore-escaped-delim'] if s['esc'] else [])

    @staticmethod
    def expected(g, conv, go_on):
        if 'crash' in conv or any('panic' in o for o in conv['ops']):
            return None
        html, n = '', 0
        for p in g['out']:
            t = ''.join(p['x'])
            if p['kind'] == 'text':
                html += t
                continue
            o = conv['ops'][n]
            n += 1
            if 'err' in o:
                if not go_on:
                    return {'err': o['err']}
                html += (o['html'] if p['kind'] == 'block' else o['html_inline']).replace('"my cls"', '"math-core-error"')
            else:
                html += o['ok']
        r = g['res']
        if not r['err']:
            return {'html': html}
        l, c = r['at']
        return {'err': {'unclosed': 'Unclosed delimiter on line %d, column %d.' % (l, c), 'nested': 'Nested delimiters are not allowed (on line %d, column %d).' % (l, c),
                        'mismatched': 'Mismatched delimiters: opening at line %d, column %d, closing at line %d, column %d.' % ((l, c) + tuple(r['to'] or (0, 0)))}[r['err']]}


def short_(o):
    t = json.dumps(o, ensure_ascii=False)
    return t if len(t) < 600 else t[:600] + '...'


def plain(text):
    return re.sub('\x1b\\[[0-9;]*m', '', text)


def tool_run(cmd, cwd, stdin=b'', timeout=60):
    """The tool, with an environment of its own. (exit status, output, errors)"""
    p = subprocess.run(cmd, cwd=cwd, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env={'PATH': '/usr/bin:/bin', 'HOME': cwd})
    return p.returncode, p.stdout.decode('utf8', 'backslashreplace'), p.stderr.decode('utf8', 'backslashreplace')



class C16(Prop):
    """Trees of files: [name, node above (0: none), kind or document, ...faults]."""
    TEXT = {'text': ['plain ', 'é <p>\n', '&lt; "x" ', '\r\n'], 'good': ['$x^2$ ', r'$$\frac12$$ ', '$a&lt;b$ '], 'fault': ['$}$ ', r'$\sqrt$ ', '$a&amp;b$ '], 'defines': [r'$\gdef\m{y}$ '], 'needs': [r'$\m$ '],
            'unknown': [r'$\zz$ '], 'macro': [r'$\cm1$ '], 'number': [r'$$\begin{equation}z\end{equation}$$ '], 'unclosed': [' $x'], 'mismatched': [' $x$$ '], 'bytes': [b'\xff']}
    FORMULAS = ('good', 'fault', 'defines', 'needs', 'unknown', 'macro', 'number')
    CONFIGS = {'good': b'ignore-unknown-commands = true\n[macros]\ncm = "w"\n', 'broken': b'ignore-unknown-commands = \n', 'type': b'pretty-print = 3\n', 'macro': b"[macros]\na = '\\zz'\n", 'bytes': b'xml-namespace = true # \xff\n'}
    NO = dict(target=[-2], write=[False], recursive=[False], dry=[False], go=[False], escaped=[False], formula=[''], inline=[False], block=[False], config=['none'], default=['none'])
    BOTH = [False, True]

    @staticmethod
    def inner(x):
        return x.strip(' $').replace('&lt;', '<').replace('&amp;', '&')

    def job(self, rnd, nodes, stdin=(), **args):
        """nodes: (name, up, doc or 'dir' or 'broken', faults)"""
        ns = []
        for name, up, what, *faults in nodes:
            d = [] if isinstance(what, str) else what
            ns.append({'up': up, 'kind': what if isinstance(what, str) else 'file', 'html': name.rpartition('.')[0] != '' and name.rpartition('.')[2] == 'html', 'doc': list(d),
                       'read': 'read' not in faults, 'write': not ({'write', 'limit'} & set(faults)), 'name': name, 'faults': list(faults), 'text': [rnd.choice(self.TEXT[p]) for p in d]})
        return {'nodes': ns, 'stdin': list(stdin), 'stdintext': [rnd.choice(self.TEXT[p]) for p in stdin], 'args': dict(self.NO, **args)}

    def document(self, rnd, n=3, bad=.3):
        d = [rnd.choice(['text', 'good', 'number', 'defines', 'needs', 'unknown', 'macro', 'text', 'good'] + (['fault'] if rnd.random() < bad else [])) for _ in range(rnd.randint(0, n))]
        d = [x for k, x in enumerate(d) if x != 'needs' or 'defines' in d[:k] or rnd.random() < bad]
        if rnd.random() < bad / 2:
            d.append(rnd.choice(['unclosed', 'mismatched', 'bytes']))
        return d

    def tree(self, rnd):
        names = ['a.html', 'b.html', 'c.htm', 'd.HTML', 'html', '.html', 'e.html.bak', 'f.txt', 'x.y.html', 'é.html', 'g .html']
        ns = []
        bad = rnd.choice([0, 0, .1, .5])
        for _ in range(rnd.randint(1, 5)):
            dirs = [0] + [i + 1 for i, n in enumerate(ns) if n[2] == 'dir']
            up = rnd.choice(dirs)
            used = {n[0] for n in ns if n[1] == up}
            if rnd.random() < .3:
                nm = rnd.choice(['sub', 'dir.html', 'sub2'])
                if nm not in used:
                    ns.append((nm, up, 'dir'))
            elif rnd.random() < .05 and 'l.html' not in used:
                ns.append(('l.html', up, 'broken'))
            else:
                nm = rnd.choice(names[:2] * 4 + names)
                if nm not in used:
                    ns.append((nm, up, self.document(rnd, 3, bad), *(['link'] if rnd.random() < .1 else [])))
        return ns or [('a.html', 0, ['good'])]

    def jobs(self, deep, rnd):
        B, out = self.BOTH, []
        def add(nodes, **kw):
            out.append(self.job(rnd, nodes, **kw))
        docs = [[], ['text'], ['good'], ['text', 'good', 'text'], ['fault'], ['good', 'fault', 'text'], ['number', 'fault', 'number'], ['unclosed'], ['good', 'unclosed'], ['fault', 'unclosed'], ['text', 'mismatched'], ['good', 'bytes'],
                ['bytes'], ['unknown', 'good'], ['defines', 'needs'], ['needs', 'defines', 'needs'], ['macro', 'text']]
        for d in docs:
            for name in ('a.html', 'b.txt') if deep or rnd.random() < .4 else ('a.html',):
                add([(name, 0, d)], target=[1, -1], write=B, recursive=B, dry=B, go=B)
            add([('a.html', 0, ['good'])], stdin=d, target=[0], write=B, recursive=B, dry=B, go=B)
        # a conversion which does not change the length of the file
        for same in self.same:
            out.append(self.job(rnd, [('a.html', 0, ['good'])], target=[1], write=B, recursive=B, dry=B))
            out[-1]['nodes'][0]['text'] = [same]
            out.append(self.job(rnd, [('r', 0, 'dir'), ('a.html', 1, ['good']), ('b.html', 1, ['good'])], target=[1, 2], recursive=B, write=[False], dry=[False]))
            out[-1]['nodes'][2]['text'] = [same]
        # configurations
        every = ['none', 'good', 'missing', 'broken', 'type', 'macro', 'directory', 'bytes', 'below', 'nowhere']
        for d in (['macro', 'good'], ['unknown']):
            add([('a.html', 0, d)], stdin=d[:1], target=[1, 0, -2], write=[False], go=B if deep else [False], config=every, default=[x for x in every if x not in ('missing', 'below', 'nowhere')])
        add([('a.html', 0, ['good'])], target=[1], write=[True], recursive=B, config=['none', 'missing', 'broken', 'macro'], default=['none', 'directory', 'type'])
        # formulas
        for f in self.FORMULAS:
            add([('a.html', 0, ['good'])], formula=[f], block=B, inline=B, config=['none', 'good'])
            add([('a.html', 0, ['good'])], stdin=[f], target=[-2], block=B, inline=B, dry=B, go=[False], write=B, config=['none', 'good'])
        add([('a.html', 0, ['good'])], stdin=['bytes'], target=[-2, 0], block=B)
        add([('a.html', 0, ['good'])], formula=['good'], target=[-2, 1, 0], write=B, recursive=B, dry=B, go=B, escaped=B)
        add([('a.html', 0, ['good'])], target=[1, 0, -1, -2], stdin=['good'], inline=B, block=B, write=B, recursive=B)
        # trees
        trees = [[('a.html', 0, 'dir'), ('b.html', 1, ['number', 'text']), ('c.html', 1, ['number', 'good']), ('d', 1, 'dir'), ('e.html', 4, ['number'])],
                 [('r', 0, 'dir'), ('a.html', 1, ['defines']), ('b.html', 1, ['needs', 'text']), ('c.htm', 1, ['good']), ('.html', 1, ['good'])],
                 [('r', 0, 'dir'), ('a.html', 1, ['good']), ('b.html', 1, ['good', 'fault']), ('c.html', 1, ['text']), ('d', 1, 'dir'), ('d.html', 5, ['good']), ('bad.htm', 5, ['fault'])],
                 [('r', 0, 'dir'), ('s', 1, 'dir'), ('t', 2, 'dir'), ('u.html', 3, ['good', 'number']), ('v.html', 2, ['number']), ('out.html', 0, ['good'])],
                 [('r', 0, 'dir'), ('a.html', 1, ['good']), ('b.html', 1, ['bytes']), ('c.html', 1, ['unclosed']), ('l.html', 1, 'broken')],
                 [('r', 0, 'dir'), ('a.html', 1, ['good', 'text'], 'link'), ('b.HTML', 1, ['good']), ('html', 1, ['good']), ('c.html.bak', 1, ['good'])],
                 [('r', 0, 'dir'), ('mathcore.toml', 1, ['text']), ('.h', 1, 'dir'), ('.git', 1, 'dir'), ('a.html', 3, ['good']), ('b.html', 4, ['number', 'text']), ('_.html', 1, ['number'])],
                 [('r.html', 0, 'dir'), ('a.html', 1, ['good']), ('node_modules', 1, 'dir'), ('é', 3, 'dir'), ('x y.html', 4, ['good', 'text']), ('-w.html', 1, ['good']), ('a.html~', 1, ['good']), ('a.xhtml', 1, ['good']), ('b.html.html', 1, ['good'])],
                 [('r', 0, 'dir')], [('r', 0, 'dir'), ('s', 1, 'dir')]]
        for t in trees:
            add(t, target=[1] + [i + 1 for i, n in enumerate(t) if n[2] != 'broken'][1:3], recursive=B, write=B, dry=B, go=B, config=['none', 'good'])
        for _ in range(2500 if deep else 300):
            t = self.tree(rnd)
            add(t, target=[rnd.choice([i + 1 for i, n in enumerate(t) if n[2] != 'broken'] or [-1])], recursive=[rnd.random() < .8], write=[rnd.random() < .1], dry=[rnd.random() < .2], go=B, config=[rnd.choice(['none', 'good'])])
        # faults of the file system
        for f in ('read', 'write', 'limit'):
            for d in (['good'], ['text'], ['good', 'number', 'text'], ['fault'], []):
                add([('a.html', 0, d, f)], target=[1], write=B, recursive=B, dry=B, go=B)
        add([('r', 0, 'dir', 'read'), ('a.html', 1, ['good'])], target=[1], recursive=[True], dry=B)
        add([('r', 0, 'dir'), ('s', 1, 'dir', 'read'), ('a.html', 1, ['good']), ('b.html', 1, ['number'])], target=[1], recursive=[True], dry=B)
        add([('r', 0, 'dir'), ('a.html', 1, ['good'], 'write'), ('b.html', 1, ['number']), ('c.html', 1, ['number'])], target=[1], recursive=[True], dry=B)
        add([('r', 0, 'dir'), ('a.html', 1, ['good'], 'read'), ('b.htm', 1, ['number'], 'read'), ('c.html', 1, ['number'])], target=[1], recursive=[True], dry=B)
        return [dict(j, id=i) for i, j in enumerate(out)]

    # ---- one run of the tool
    @staticmethod
    def path(nodes, n):
        return nodes[n - 1]['name'] if not nodes[n - 1]['up'] else os.path.join(C16.path(nodes, nodes[n - 1]['up']), nodes[n - 1]['name'])

    @staticmethod
    def content(parts):
        return b''.join(p if isinstance(p, bytes) else p.encode() for p in parts)

    def prepare(self, j, a, root):
        work = os.path.join(root, 'work')
        os.makedirs(os.path.join(root, 'outside'))
        os.makedirs(work)
        ns = j['nodes']
        for i, n in enumerate(ns, 1):
            p = os.path.join(work, self.path(ns, i))
            if n['kind'] == 'dir':
                os.mkdir(p)
            elif n['kind'] == 'broken':
                os.symlink('../nowhere', p)
            else:
                q = os.path.join(root, 'outside', str(i)) if 'link' in n['faults'] else p
                with open(q, 'wb') as f:
                    f.write(self.content(n['text']))
                if q != p:
                    os.symlink(q, p)
        for kind, name in ((a['config'], 'other.toml'), (a['default'], 'mathcore.toml')):
            if kind == 'directory':
                os.mkdir(os.path.join(work, name))
            elif kind == 'below':
                with open(os.path.join(work, name), 'wb') as f:
                    f.write(self.CONFIGS['good'])
            elif kind in self.CONFIGS:
                with open(os.path.join(work, name), 'wb') as f:
                    f.write(self.CONFIGS[kind])
        return work

    @staticmethod
    def snapshot(root):
        out = {}
        for d, ds, fs in os.walk(root):
            for x in ds:
                out[os.path.relpath(os.path.join(d, x), root)] = 'directory'
            for x in fs:
                p = os.path.join(d, x)
                if os.path.islink(p):
                    out[os.path.relpath(p, root)] = 'link to ' + os.readlink(p)
                else:
                    with open(p, 'rb') as f:
                        out[os.path.relpath(p, root)] = f.read()
        return out

    def command(self, j, a):
        c = []
        for k, o in (('write', '--write'), ('recursive', '--recursive'), ('dry', '--dry-run'), ('go', '--continue-on-error'), ('escaped', '--ignore-escaped-delim'), ('inline', '--inline'), ('block', '--block')):
            if a[k]:
                c.append(o)
        if a['formula']:
            c += ['--formula', self.inner(self.TEXT[a['formula']][0])]
        if a['config'] != 'none':
            c += ['--config-file', {'below': 'other.toml/c.toml', 'nowhere': 'nowhere/other.toml'}.get(a['config'], 'other.toml')]
        if a['target'] != -2:
            c.append({0: '-', -1: 'missing.html'}.get(a['target']) or self.path(j['nodes'], a['target']))
        return c

    def input(self, j, a):
        t = j['stdintext']
        if a['target'] == -2:
            t = [x if isinstance(x, bytes) else self.inner(x) for x in t]
        return self.content(t)

    def run_tool(self, tool, j, a, base):
        root = os.path.join(base, '%d-%d' % (j['id'], self.serial()))
        work = self.prepare(j, a, root)
        faulty, pre = {f for n in j['nodes'] for f in n['faults']} & {'read', 'write', 'limit'}, None
        if faulty:
            limit = max(len(self.content(n['text'])) for n in j['nodes'])
            for d, ds, fs in os.walk(root):
                for x in ['.'] + ds + fs:
                    os.chown(os.path.join(d, x), 65534, 65534, follow_symlinks=False)
            for i, n in reversed(list(enumerate(j['nodes'], 1))):
                if 'read' in n['faults']:
                    os.chmod(os.path.join(work, self.path(j['nodes'], i)), 0)
                elif 'write' in n['faults']:
                    os.chmod(os.path.join(work, self.path(j['nodes'], i)), 0o444)
            def pre():
                import resource, signal
                if 'limit' in faulty:
                    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
                os.setgroups([])
                os.setgid(65534)
                os.setuid(65534)
        before = self.snapshot(root)
        p = subprocess.run([tool] + self.command(j, a), cwd=work, input=self.input(j, a), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, env={'PATH': '/usr/bin:/bin', 'HOME': work}, preexec_fn=pre)
        after = self.snapshot(root)
        shutil.rmtree(root)
        return {'exit': p.returncode, 'stdout': p.stdout, 'stderr': p.stderr, 'changed': {k: v for k, v in after.items() if before.get(k) != v}, 'gone': sorted(set(before) - set(after))}

    def serial(self):
        self.n = getattr(self, 'n', 0) + 1
        return self.n

    # ---- what the specification expects
    def formulas(self, j, a, order):
        ops = []
        for n in order:
            doc, text = (j['stdin'], j['stdintext']) if n == 0 else (j['nodes'][n - 1]['doc'], j['nodes'][n - 1]['text'])
            for k, x in zip(doc, text):
                if k in self.FORMULAS:
                    ops.append({'op': 'global', 'src': self.inner(x), 'block': a['block'] if a['target'] == -2 else x.startswith('$$')})
        if a['formula']:
            ops.append({'op': 'global', 'src': self.inner(self.TEXT[a['formula']][0]), 'block': a['block']})
        return ops

    def config(self, a):
        good = (a['config'] if a['config'] != 'none' else a['default']) == 'good'
        return ({'ignore-unknown-commands': True}, [['cm', 'w']]) if good else ({}, [])

    def outcome(self, j, o, conv):
        """What is to be seen of an outcome: exit status, output, changed files."""
        a, it = o['args'], iter(conv.get('ops', []))
        def html(r, block):
            return r['ok'] if 'ok' in r else (r['html'] if block else r['html_inline']).replace('"my cls"', '"math-core-error"')
        made = {}
        for n in o['order']:
            doc, text = (j['stdin'], j['stdintext']) if n == 0 else (j['nodes'][n - 1]['doc'], j['nodes'][n - 1]['text'])
            made[n] = ''.join((html(next(it), x.startswith('$$')) + (' ' if a['target'] != -2 else '') if k in self.FORMULAS else x) for k, x in zip(doc, text)) if 'bytes' not in doc else ''
        if a['formula'] and o['stdout']:
            made[0] = html(next(it), False)
        changed = {}
        for i, x in enumerate(o['files'], 1):
            if x == 'new':
                n = j['nodes'][i - 1]
                changed['outside/%d' % i if 'link' in n['faults'] else os.path.join('work', self.path(j['nodes'], i))] = made[i].encode()
        out = b''
        for n in o['stdout']:
            out = made[n].encode() + (b'\n' if n == 0 else b'')
        return {'exit': o['exit'], 'stdout': out, 'changed': changed}

    def check(self, run):
        deep, rnd = run.deep, random.Random(run.seed * 8191 + 5)
        tool, base, got = mc.cli(), mc.scratch('files'), []
        os.chmod(base, 0o755)
        plain = {b: mc.run_impl([{'id': 0, 'config': {}, 'macros': [], 'ops': [{'op': 'local', 'src': 'a', 'block': b}]}])[0]['ops'][0].get('ok', '') for b in (False, True)}
        self.same = ['$a%' + 'c' * (len(plain[False]) - 4) + '$ ', '$$a %' + 'c' * (len(plain[True]) - 7) + '$$ ', '$\n' + 'a'.rjust(len(plain[False]) - 3) + '$ ']
        jobs = self.jobs(deep, rnd)
        try:
            f = os.path.join(base, 'jobs.json')
            with open(f, 'w', encoding='utf8') as h:
                json.dump([{k: ([{x: y for x, y in n.items() if x not in ('name', 'text', 'faults')} for n in v] if k == 'nodes' else v) for k, v in j.items() if k != 'stdintext'} for j in jobs], h)
            r = mc.tlc('Cli.tla', 'Cli.cfg', {'JOBS': f}, workers=mc.CORES, sink=got.append, heap='10g', timeout=6000)
            if r.violation:
                raise mc.Broken('the specification violates its own invariant: %s\n%s' % (r.violation, '\n'.join(r.lines[-60:])))
            run.states += r.distinct
            run.transitions += r.states
            # the contents
            ss, keys = [], {}
            for o in got:
                j = jobs[o['id']]
                c, m = self.config(o['args'])
                ops = self.formulas(j, o['args'], o['order'])
                k = json.dumps([c, m, ops])
                if k not in keys:
                    keys[k] = len(ss)
                    ss.append({'id': len(ss), 'config': c, 'macros': m, 'ops': ops, 'reports': True})
                o['conv'] = keys[k]
            conv = mc.run_impl(ss)
            runs = {}
            for o in got:
                runs.setdefault((o['id'], json.dumps(o['args'], sort_keys=True)), []).append(o)
            todo = sorted(runs)
            special = lambda t: any(f in ('read', 'write', 'limit') for n in jobs[t[0]]['nodes'] for f in n['faults'])
            seen = {}
            with mc.ThreadPoolExecutor(mc.CORES) as ex:
                ts = [t for t in todo if not special(t)]
                seen.update(zip(ts, ex.map(lambda t: self.run_tool(tool, jobs[t[0]], json.loads(t[1]), base), ts)))
            try:
                for t in todo:
                    if special(t):
                        seen[t] = self.run_tool(tool, jobs[t[0]], json.loads(t[1]), base)
            except (PermissionError, subprocess.SubprocessError) as e:
                run.count('without an unprivileged user: %s' % e, 1)
        finally:
            shutil.rmtree(base, ignore_errors=True)
        run.traces += len(seen)
        run.count('invocations', len(seen))
        run.count('outcomes', len(got))
        for t in todo:
            if t not in seen:
                continue
            j, s = jobs[t[0]], seen[t]
            want = [self.outcome(j, o, conv[o['conv']]) for o in runs[t]]
            bad = None
            if s['gone']:
                bad = 'these are gone: %s' % s['gone']
            elif not any({k: s[k] for k in ('exit', 'stdout', 'changed')} == w for w in want):
                bad = 'exit status %d, output %r, changed %r; expected %s' % (s['exit'], s['stdout'][:200], s['changed'], ' or '.join('exit status %d, output %r, changed %r' % (w['exit'], w['stdout'][:200], w['changed']) for w in want[:3]))
            elif s['exit'] and not s['stderr']:
                bad = 'exit status %d without a message' % s['exit']
            detail = {'command': self.command(j, json.loads(t[1])), 'files': {self.path(j['nodes'], i): [n['kind'], repr(self.content(n['text'])), n['faults']] for i, n in enumerate(j['nodes'], 1)}, 'stdin': repr(self.input(j, json.loads(t[1]))), 'options': json.loads(t[1])}
            if bad:
                run.violation(bad[:3000], dict(detail, stderr=s['stderr'].decode('utf8', 'replace')[:500]))
            elif rnd.random() < 6 / len(todo):
                run.sample(dict(detail, observed={'exit': s['exit'], 'stdout': repr(s['stdout'])[:300], 'changed': repr(s['changed'])[:300]}))



class C21(Prop):
    OPTIONS = {'pretty_print': ['never', 'always', 'auto'], 'xml_namespace': [False, True], 'ignore_unknown_commands': [False, True], 'annotation': [False, True], 'allow_unreliable_rendering': [False, True],
               'global_group': [False, True], 'unicode_substitution': ['conventional', 'never'], 'max_expansions': [1000, 0, 1, 2, 5], 'id_prefix': ['', 'p-', 'é:']}
    DOCS = [r'x', r'\frac{a}{b}+\zz', r'\begin{align}a\label{p}\\b&c\end{align}', r'\eqref{p}', r'\gdef\m{y}\m', r'\m', r'\def\n{z}\n', r'\n', r'\begin{equation}a\end{equation}', r'\sqrt', r'é}', r'\M x', r'\varGamma\epsilon H\hbar', r'\newcommand{\n}{1}\n',
            r'\def\a{\a}\a', r'\M\M\M x', r'\begin{matrix}a&b\end{matrix}\text{a b}', r'\mathrm{\mathbb{é}}<"', r'^\zz&', '', r'\tag{1}', r'\begin{gather}\eqref{q}\\x\label{q}\end{gather}', r'\mathscr{B}\mathfrak{H}', r'\begin{equation}a\end{equation}\label{zz}\zz', '\\text{\n}\\\n', r'\xleftrightarrow{ab}\overbrace{x}']

    def options(self, rnd):
        o = {k: rnd.choice(v) for k, v in self.OPTIONS.items() if rnd.random() < .35}
        if rnd.random() < .5:
            o['macros'] = rnd.choice([{'M': r'\left<#1\right>'}, {'M': 'a', 'K': r'\M^2'}, {'a': r'\zz'}, {'é': '}'}, {'M': '#'}, {'a1': 'x'}, {'M': 'b', 'L': r'é\nope'}])
        return o

    # ---- one thread: as the Rust converter
    def alone(self, run, deep, rnd):
        g, jobs = gen.Gen(rnd, stray=.15, focus={'env': 4, 'ref': 4, 'define': 4}), []
        def src():
            return rnd.choice(self.DOCS) if rnd.random() < .6 else g.seq(3, 3)
        for k in range(40000 if deep else 6000):
            o = self.options(rnd)
            calls = []
            for _ in range(rnd.randint(1, 6)):
                kind = rnd.choice(['global', 'global', 'local', 'all', 'reset'])
                calls.append(['reset'] if kind == 'reset' else ['all', [[src(), rnd.random() < .5] for _ in range(rnd.randint(0, 3))]] if kind == 'all' else [kind, src(), rnd.random() < .5])
            for x in ('continue_on_error', 'fancy_error'):
                if rnd.random() < .6:
                    o[x] = rnd.random() < .5
            jobs.append({'id': k, 'options': o, 'threads': [calls]})
        ss = []
        for j in jobs:
            o = j['options']
            cfg = {k.replace('_', '-'): v for k, v in o.items() if k not in ('macros', 'continue_on_error', 'fancy_error')}
            ops = [{'op': 'reset'} if c[0] == 'reset' else {'op': 'all', 'items': [{'src': s, 'block': b} for s, b in c[1]]} if c[0] == 'all' else {'op': c[0], 'src': c[1], 'block': c[2]} for c in j['threads'][0]]
            ss.append({'id': j['id'], 'config': cfg, 'macros': [list(m) for m in o.get('macros', {}).items()], 'ops': ops, 'reports': True})
        want, seen = mc.run_impl(ss), mc.run_python(jobs)
        recs, of = [], []
        for j in jobs:
            w, s, o = want[j['id']], seen[j['id']], j['options']
            if 'crash' in w or 'badcfg' in str(w.get('new')):
                continue
            if 'crash' in s:
                run.violation('the process died: %s' % s['crash'], {'job': j})
                continue
            if ('new' in w) != ('new' in s):
                run.violation('creating the converter: expected %s, got %s' % (w.get('new'), s.get('new')), {'job': j})
                continue
            pairs = [('new', w['new'], [None], s['new'])] if 'new' in w else [
                ('all' if c[0] == 'all' else 'reset' if c[0] == 'reset' else 'one', r, [b for _, b in c[1]] if c[0] == 'all' else [c[-1]], e) for c, r, e in zip(j['threads'][0], w['ops'], s['threads'][0])]
            for op, r, blocks, e in pairs:
                results = [] if op == 'reset' else [self.result(x, b) for x, b in zip(r.get('all', [r]), blocks)]
                if None in results:
                    continue
                recs.append({'id': len(recs), 'op': op, 'index': r.get('idx', 0) if op == 'new' else 0, 'go': o.get('continue_on_error', False), 'fancy': o.get('fancy_error', True),
                             'results': results, 'seen': {'how': e['how'], 'what': [plain(x) for x in e['what']]}})
                of.append((j, e))
        bad = self.judge(run, 'Binding', recs)
        run.traces += len(recs)
        run.count('calls', len(recs))
        for b in bad:
            j, e = of[b['id']]
            run.violation('expected %s, got %s' % (json.dumps(b['want'], ensure_ascii=False)[:800], json.dumps({'how': e['how'], 'what': e['what']}, ensure_ascii=False)[:800]), {'job': j})
        for i in rnd.sample(range(len(recs)), 3):
            run.sample({'options': of[i][0]['options'], 'calls': of[i][0]['threads'][0], 'one_of_the_results': recs[i]['seen']})

    @staticmethod
    def result(x, block):
        if 'panic' in x or any(not isinstance(x.get(k, ''), str) for k in ('msg', 'html', 'report')):
            return None
        if 'ok' in x:
            return {'ok': True, 'output': x['ok'], 'html': '', 'message': '', 'report': ['', '']}
        before, _, after = plain(x['report']).partition('[ input:')
        return {'ok': False, 'output': '', 'html': (x['html'] if block else x['html_inline']).replace('"my cls"', '"math-core-error"'), 'message': x['msg'], 'report': [before + '[ ', ':' + after]}

    def judge(self, run, module, recs):
        d, out = mc.scratch('judge'), []
        try:
            f = os.path.join(d, 'jobs.json')
            with open(f, 'w', encoding='utf8') as h:
                json.dump(recs, h)
            r = mc.tlc(module + '.tla', module + '.cfg', {'JOBS': f}, workers=mc.CORES, sink=out.append, heap='10g')
            if r.violation:
                raise mc.Broken('the specification violates its own invariant: %s' % r.violation)
            run.states += r.distinct
            run.transitions += r.states
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return out

    # ---- several threads
    def history(self, rnd, k, conflict):
        keys = ['p', 'q', 'r', 's', 't', 'u', 'v', 'w']
        labels, threads = keys[:], []
        for _ in range(conflict):
            calls = []
            for _ in range(rnd.randint(2, 6)):
                op = rnd.choice(['number', 'number', 'number', 'ref', 'ref', 'define', 'use', 'swap', 'swap', 'fail', 'local number', 'local ref', 'local define', 'local use', 'all', 'reset' if rnd.random() < .4 else 'number'])
                c = {'op': op, 'rows': 0, 'key': '', 'val': 0}
                if op in ('number', 'local number', 'fail', 'all'):
                    c['rows'] = rnd.choice([1, 1, 2, 5, 60])
                if op == 'number':
                    if not labels:
                        c['op'], c['rows'], c['key'] = 'ref', 0, rnd.choice(keys)
                    else:
                        c['key'] = labels.pop(rnd.randrange(len(labels)))
                elif op in ('ref', 'local ref'):
                    c['key'] = rnd.choice(keys)
                elif op in ('define', 'use', 'swap', 'local define', 'local use'):
                    c['key'], c['val'] = rnd.choice(['m', 'n']), rnd.randint(1, 99)
                calls.append(c)
            threads.append(calls)
        return threads

    @staticmethod
    def concrete(c):
        rows = r'\begin{align}%s%s\end{align}'
        body = r'\\'.join(['a+b'] * c['rows'])
        op = c['op'].split()[-1]
        if c['op'] == 'reset':
            return ['reset']
        if c['op'] == 'all':
            return ['all', [[r'\eqref{p}', False], [rows % (body, r'\label{p}'), True]]]
        s = {'number': lambda: rows % (body, r'\label{%s}' % c['key'] if c['key'] else ''), 'fail': lambda: rows % (body, '') + r'\zz', 'ref': lambda: r'\eqref{%s}' % c['key'],
             'define': lambda: r'\gdef\%s{%d}' % (c['key'], c['val']) + (r'\%s' % c['key'] if c['op'] != 'define' else ''), 'use': lambda: '\\' + c['key'], 'swap': lambda: r'\%s\gdef\%s{%d}' % (c['key'], c['key'], c['val'])}[op]()
        return ['local' if c['op'].startswith('local') else 'global', s, c['rows'] > 0]

    @staticmethod
    def abstract(c, e):
        """What was seen, as Shared.tla has it; None if it is something else."""
        if e['how'] == 'LatexError':
            return [-9]
        if e['how'] != 'returned':
            return None
        if any('math-core-error' in x for x in e['what']):
            return [-9]
        out = []
        for x in e['what'][::-1] if c['op'] == 'all' else e['what']:
            out += [-1 if n == '(??)' else int(n.strip('()')) for n in re.findall(r'\(\d+\)|\(\?\?\)|(?<=<mn>)\d+(?=</mn>)', x)]
        return out

    def together(self, run, deep, rnd):
        jobs, abstract = [], []
        for k in range(20000 if deep else 2000):
            ts = self.history(rnd, k, rnd.choice([2, 3, 4, 4, 6] if deep or k % 3 else [4]))
            abstract.append(ts)
            jobs.append({'id': k, 'options': {'continue_on_error': rnd.random() < .3, 'fancy_error': False}, 'threads': [[self.concrete(c) for c in t] for t in ts]})
        seen = mc.run_python(jobs)
        recs, where = [], {}
        for j, ts in zip(jobs, abstract):
            s = seen[j['id']]
            if 'crash' in s:
                run.violation('the process died or did not end: %s' % s['crash'], {'job': j})
                continue
            calls, flat, odd = [], [], None
            for t, (cs, es) in enumerate(zip(ts, s['threads'])):
                for i, (c, e) in enumerate(zip(cs, es)):
                    a = self.abstract(c, e)
                    if a is None:
                        odd = (c, e)
                    calls.append(dict(c, seen=a or [], **{'from': e['from'], 'to': e['to']}))
                    flat.append((t, i, e))
            if odd:
                run.violation('the call %s gives %s: %s' % (self.concrete(odd[0])[1:], odd[1]['how'], odd[1]['what']), {'job': j})
            recs.append({'id': j['id'], 'calls': calls})
            where[j['id']] = (j, calls, flat)
        orders = {o['id']: o['order'] for o in self.judge(run, 'Shared', recs)}
        run.traces += len(recs)
        run.count('histories', len(recs))
        run.count('overlapping calls', sum(1 for r in recs for a in r['calls'] if any(a['from'] < b['from'] < a['to'] for b in r['calls'])))
        ss = []
        for r in recs:
            j, calls, flat = where[r['id']]
            if r['id'] not in orders:
                run.violation('no order of the calls explains this history', {'history': sorted(([c['from'], c['to'], self.concrete(c), c['seen']] for c in calls), key=lambda x: x[0]), 'job': j})
                continue
            ops = []
            for i in orders[r['id']]:
                c = self.concrete(calls[i - 1])
                ops.append({'op': 'reset'} if c[0] == 'reset' else {'op': 'all', 'items': [{'src': s, 'block': b} for s, b in c[1]]} if c[0] == 'all' else {'op': c[0], 'src': c[1], 'block': c[2]})
            ss.append({'id': r['id'], 'config': {}, 'macros': [], 'ops': ops})
        # the very outputs, in the order that was found
        rust = mc.run_impl(ss)
        for s in ss:
            j, calls, flat = where[s['id']]
            for i, o in zip(orders[s['id']], rust[s['id']].get('ops', [])):
                got = flat[i - 1][2]
                want = [] if o.get('ok') == '' else [x.get('ok') for x in o.get('all', [o])]
                if got['how'] == 'returned' and calls[i - 1]['seen'] != [-9] and got['what'] != want:
                    run.violation('the call %s: expected %s, got %s' % (self.concrete(calls[i - 1]), want, got['what']), {'job': j})
        for r in rnd.sample(recs, 3):
            run.sample({'history': [[c['from'], c['to'], self.concrete(c), c['seen']] for c in r['calls']][:12], 'order': orders.get(r['id'])})

    def invalid(self, run):
        for o in ({'pretty_print': 'sometimes'}, {'unicode_substitution': ''}, {'max_expansions': -1}, {'macros': {'a': 1}}, {'nonsense': True}):
            s = mc.run_python([{'id': 0, 'options': o, 'threads': [[]]}])[0]
            if s.get('new', {}).get('how') not in ('ValueError', 'TypeError', 'OverflowError'):
                run.violation('the options %s are accepted: %s' % (o, s), {'options': o})

    def check(self, run):
        deep, rnd = run.deep, random.Random(run.seed * 2741 + 9)
        self.alone(run, deep, rnd)
        self.together(run, deep, rnd)
        self.invalid(run)


ALL.update({c.__name__: c for c in (C09, C15, C16, C17, C18, C21)})
