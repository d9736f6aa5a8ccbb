"""The properties: which snippets are explored for each one, and what is compared."""
import itertools, random, re, zlib
import gen, views
from views import *

ITEM = {'k': '', 'no': False, 'tag': '', 'lab': '', 'name': '', 'g': False, 'mode': '', 'v': ''}


def it(k, **kw):
    d = dict(ITEM, k=k)
    d.update(kw)
    return d


def W(text, k='x', v='', items=(), ex=None):
    return {'text': text, 'k': k, 'v': v, 'it': list(items), 'ex': text if ex is None else ex}


def words(*ts, k='x'):
    return [W(t, k) for t in ts]


def scope(id, ws, max, calls=1, pre='', post='', kinds=('global',), block=(True,), config=None, macros=(), big=True, **extra):
    return dict(extra, id=id, words=list(ws), max=max, calls=calls, pre=pre, post=post, kinds=list(kinds), block=list(block),
                config=config or {}, macros=[list(m) for m in macros], big=big)


AROUND = ['§', 'x^{§}', 'x_{y_{§}}', r'{\textstyle §}', r'\begin{matrix}§&§\end{matrix}', r'\left(§\middle|§\right)', r'{\bf §}', r'\def\w{§}\w ', r'\def\w#1{#1}\w{§}', r'\sqrt{§}§', r'\begin{align}§\\§\end{align}', r'\frac{§}{§}']


class Prop:
    view = Skeleton()
    strict = True          # in the sessions that are about this property
    focus = {}             # what the random sessions about it consist of
    envs = None
    nops = 1
    depth = 3
    sessions = (1600, 12000)     # random sessions: focused
    general = (1200, 8000)      # and of all kinds
    reports = False
    assumptions = ()
    level_note = ''

    def scopes(self, deep):
        return []

    def key(self, sc, ops):
        """Sessions with the same key have to give the same outcome, if the specification says so."""
        return None

    def pairs(self, rnd, n):
        """Random sessions which come in groups: [(group, session)]."""
        return []

    nest = {}              # constructs in constructs: see gen.nested; probes, and which constructs one of the two is to be
    nests = (5000, 30000)
    sweep = ()             # snippets for every command, which stands for \0
    chars = False          # and for every character
    sweep_config = {}

    def nested(self, rnd, n):
        """Sessions of one snippet each, which put every construct into every other one."""
        import gen
        if not self.nest:
            return []
        k = dict(self.nest)
        cfg, macros, pre, post = k.pop('config', {}), k.pop('macros', ()), k.pop('pre', ''), k.pop('post', '')
        about, damage, kinds = k.pop('about', None), k.pop('damage', 0), k.pop('kinds', ('local',))
        every = k.pop('constructs', gen.CONSTRUCTS)
        some = [c for c in every if about is None or re.search(about, c)]
        out = []
        probes, around = k['probes'], k.pop('around', ()) or AROUND
        for a in around:                 # every construct, with what comes after it, in these places
            for c in every:
                for bare in (0, 1):
                    s = gen.fill(rnd, c, gen.forever(lambda: probes[0] if rnd.random() < .7 else rnd.choice(probes)), bare) + probes[0]
                    if rnd.random() < damage:
                        s = gen.damaged(rnd, s)
                    for block in (True, False):
                        if bare != block or rnd.random() < .5:
                            out.append(session({'op': rnd.choice(kinds), 'src': pre + a.replace('§', s) + post, 'block': block}, config=cfg if not isinstance(cfg, list) else rnd.choice(cfg), macros=macros))
        for kw, m in [(dict(outer=some), .45), (dict(inner=some), .3), (dict(depth=3, outer=some), .25)] if about else [(dict(), .7), (dict(depth=3), .3)]:
            for s in gen.nested(rnd, int(n * m), constructs=every, **dict(k, **kw)):
                if rnd.random() < damage:
                    s = gen.damaged(rnd, s)
                out.append(session({'op': rnd.choice(kinds), 'src': pre + s + post, 'block': rnd.random() < .6}, config=cfg if not isinstance(cfg, list) else rnd.choice(cfg), macros=macros))
        return out

    mix = (2500, 30000)

    def mixed(self, rnd, n):
        """Longer random sequences of the words of the scopes (mostly with matching brackets), in a context."""
        import gen
        scs = self.scopes(False)
        out = []
        for sc in scs:
            for _ in range(max(20, n // len(scs))):
                def src():
                    m = ''.join(rnd.choice(sc['words'])['text'] for _ in range(rnd.randint(3, 9)))
                    if rnd.random() < .85:
                        m = gen.balanced(m)
                    s = sc['pre'] + m + sc['post']
                    k = rnd.random()
                    if k < .25:
                        return s
                    if k < .6:
                        return rnd.choice(AROUND).replace('§', s)
                    return gen.fill(rnd, rnd.choice(gen.CONSTRUCTS), gen.forever(lambda: s if rnd.random() < .6 else rnd.choice(sc['words'])['text'] if rnd.random() < .3 else 'x'), .1) + ('' if rnd.random() < .5 else 'x')
                ops = [batch(src(), src(), block=rnd.choice(sc['block'])) if k == 'all' else RESET if k == 'reset' else {'op': k, 'src': src(), 'block': rnd.choice(sc['block'])}
                       for k in (rnd.choice(sc['kinds']) for _ in range(rnd.randint(1, sc['calls'] + (sc['calls'] > 1))))]
                out.append(session(*ops, config=sc['config'], macros=sc['macros']))
        return out

    def swept(self):
        import gen
        out = []
        for c, n, _ in gen.SYMBOLS[:None if self.chars else len(gen.NAMES)]:
            ins = lambda x: x.replace('\\0', c).replace('\\1', n)
            out.append(session(*[local(ins(x[0]), x[1]) if isinstance(x, tuple) else local(ins(x)) for x in self.sweep], config=self.sweep_config))
        return out if self.sweep else []

    def fixed(self):
        return []

    def fixed_known(self):
        return []


def session(*ops, config=None, macros=()):
    """ops: strings, for conversions with the shared state in block mode, or dicts"""
    return {'config': config or {}, 'macros': [list(m) for m in macros],
            'ops': [{'op': 'global', 'src': o, 'block': True} if isinstance(o, str) else o for o in ops]}


def local(src, block=True):
    return {'op': 'local', 'src': src, 'block': block}


def batch(*srcs, block=True):
    return {'op': 'all', 'items': [{'src': s, 'block': block} for s in srcs]}


RESET = {'op': 'reset'}
ROW = lambda **kw: it('row', **kw)

# ------------------------------------------------------------------------------------------------ C01, C02

NUMBERED_ENVS = ['align', 'align*', 'equation', 'equation*', 'gather', 'gather*', 'multline', 'matrix', 'aligned', 'array', 'cases']


class C01(Prop):
    view = Numbers()
    focus = {'env': 14, 'ref': 5, 'define': .5, 'stray': .2}
    nest = dict(probes=['x', 'x', r'x\nonumber ', r'\tag{T}y'], pre=r'\begin{align}', post=r'\\z\end{align}\begin{gather}u\end{gather}')
    nests = (3000, 16000)
    envs = NUMBERED_ENVS[:7] * 2 + NUMBERED_ENVS
    nops = 4

    def scopes(self, deep):
        row = [W('a'), W(r'\\', 'row'), W(r'\nonumber ', 'no'), W(r'\tag{T}', 'tag', 'T'), W(r'\label{p}', 'lab', 'p')]
        more = [W('a'), W(r'\\', 'row'), W(r'\notag ', 'no'), W('&'), W(r'\begin{matrix}x\\y&z\end{matrix}'),
                W(r'{\n}', 'no'), W(r'\text{t}'), W(r'\frac{u}{v}^2')]
        out = []
        for env, kind, n in [('align', 'each', 5), ('gather', 'each', 4), ('align*', 'star', 4), ('gather*', 'star', 4), ('equation', 'one', 4),
                             ('equation*', 'star', 4), ('multline', 'last', 5)]:
            ws = [dict(w, k='x') if w['k'] == 'row' and env.startswith('equation') else w for w in row]     # one row, however it is broken
            out.append(scope('rows-' + env, ws, n + deep, pre=r'\begin{%s}' % env, post=r'\end{%s}' % env, env=kind))
        for env, kind in [('align', 'each'), ('gather', 'each'), ('multline', 'last')]:
            out.append(scope('cells-' + env, more, 4 + deep if env == 'align' else 3 + deep, pre=r'\newcommand{\n}{\nonumber}\begin{%s}' % env,
                             post=r'\end{%s}' % env, env=kind))
        docs = [W(r'\begin{align}a\\b\end{align}', items=[ROW(), ROW()]),
                W(r'\begin{gather}a\nonumber\\b\tag{x}\\c\end{gather}', items=[ROW(no=True), ROW(tag='x'), ROW()]),
                W(r'\begin{equation}a\end{equation}', items=[ROW()]),
                W(r'\begin{multline}a\\b\end{multline}', items=[ROW(no=True), ROW()]),
                W(r'\begin{align*}a\\b\tag{y}\end{align*}', items=[ROW(no=True), ROW(tag='y')]),
                W(r'\begin{equation}a\end{equation}\foo', items=[ROW(), it('fail')]),
                W(r'\frac{1}{2}')]
        out += [scope('calls', docs, 1, 3 + deep, kinds=['global', 'local', 'reset'], items=True),
                scope('snippets', docs, 2, 2, kinds=['global', 'local'] if deep else ['global'], items=True),
                scope('batches', docs, 3 + deep, 1, kinds=['all'], items=True),
                scope('batch-between', docs, 1, 3, kinds=['all', 'global'], items=True),
                scope('no-shared-commands', docs, 1, 2, kinds=['all', 'global', 'local', 'reset'], config={'global-group': True}, items=True)]
        return out

    def fixed(self):
        return [session(r'\begin{align}a\\b\end{align}', r'\begin{multline}a\\b\\c\end{multline}', RESET, r'\begin{equation}x\end{equation}'),
                session(r'\begin{multline}a\nonumber\\b\end{multline}\begin{equation}a\end{equation}'),
                session(r'\newcommand{\n}{\nonumber}\begin{align}x\n\\y\end{align}'),
                session(r'\begin{align}\begin{aligned}a\\b\end{aligned}\\c\end{align}'),
                session(r'\begin{align}' + r'x\\' * 120 + r'y\end{align}'),
                session(*([r'\begin{gather}' + r'x\\' * 25 + r'y\end{gather}'] * 11), r'\begin{multline}x\\y\end{multline}')] + [
            session(r'\begin{%s}x\tag%s{%s}\\y\tag%s{%s}\end{%s}' % (e, s, t, r, u, e)) for e in ('align', 'gather*', 'multline', 'equation') for s in ('', '*') for r in ('', '*') for t in ('', ' ', 'a', '{}', '(', r'\&') for u in ('', 'b')]


class C02(Prop):
    view = References()
    focus = {'env': 10, 'ref': 12, 'define': .5, 'stray': .2}
    nest = dict(probes=['x', r'\label{p}x', r'\eqref{p}'], pre=r'\begin{align}', post=r'\\z\label{q}\end{align}\eqref{p}\eqref{q}')
    nests = (3000, 16000)
    envs = C01.envs
    nops = 4

    def scopes(self, deep):
        row = [W('a'), W(r'\\', 'row'), W(r'\nonumber ', 'no'), W(r'\tag{T}', 'tag', 'T'), W(r'\label{p}', 'lab', 'p'), W(r'\label{q}', 'lab', 'q'), W(r'\eqref{p}')]
        out = []
        for env, kind, n in [('align', 'each', 4), ('gather', 'each', 4), ('align*', 'star', 4), ('equation', 'one', 4), ('multline', 'last', 4)]:
            ws = [dict(w, k='x') if w['k'] == 'row' and env.startswith('equation') else w for w in row]     # one row, however it is broken
            out.append(scope('rows-' + env, ws, n + deep, pre=r'\begin{%s}' % env, post=r'\end{%s}' % env, env=kind))
        docs = [W(r'\begin{align}a\label{p}\\b\label{q}\end{align}', items=[ROW(lab='p'), ROW(lab='q')]),
                W(r'\begin{equation}\tag{T}a\label{p}\end{equation}', items=[ROW(tag='T', lab='p')]),
                W(r'\begin{gather}a\label{q}\nonumber\\b\end{gather}', items=[ROW(no=True, lab='q'), ROW()]),
                W(r'\begin{multline}a\label{q}\\b\end{multline}', items=[ROW(no=True), ROW(lab='q')]),
                W(r'\eqref{p}', items=[it('ref', lab='p')]),
                W(r'\frac{\eqref{q}}{\sqrt{\eqref{p}}}', items=[it('ref', lab='q'), it('ref', lab='p')]),
                W(r'\begin{equation}a\label{p}\end{equation}\foo', items=[ROW(lab='p'), it('fail')])]
        out += [scope('calls', docs, 1, 3 + deep, kinds=['global', 'local', 'reset'], items=True),
                scope('snippets', docs, 2, 2, kinds=['global', 'local'] if deep else ['global'], items=True),
                scope('batches', docs, 3 + deep, 1, kinds=['all'], items=True),
                scope('batch-between', docs, 1, 3, kinds=['all', 'global'], items=True),
                scope('outside', words(r'\label{p}', r'\tag{T}', 'a', r'\eqref{p}', r'\eqref{}', '{', '}', r'\begin{matrix}', r'\end{matrix}'), 4 + deep),
                scope('names', words(r'\begin{equation}a\label{a b}\end{equation}', r'\begin{equation}a\label{p:q-1}\end{equation}', r'\eqref{a b}', r'\eqref{p:q-1}',
                                     r'\eqref{ p:q-1}', r'\ref{p:q-1}', r'\begin{equation}\label{"<>}\end{equation}', r'\eqref{"<>}', r'\eqref{%}'), 2 + deep,
                      config={'id-prefix': 'x-'})]
        return out

    def fixed(self):
        return [session(r'\begin{multline}a\label{q}\\b\end{multline}\eqref{q}'),
                session(batch(r'\eqref{p}', r'\begin{align}a\label{p}\end{align}', r'\eqref{z}')),
                session(r'\begin{align}a\label{p}\\b\label{p}\end{align}', r'\eqref{p}'),
                session(r'\newcommand{\r}[1]{\eqref{#1}}\begin{align}a\label{p}\end{align}\r{p}'),
                session(r'\begin{align}a\label{l}\foo\end{align}', r'\eqref{l}')] + [
            session(f % ((n,) * 4), r'\eqref{%s}' % n, RESET, r'\eqref{%s}' % n, r'\eqref{p}')
            for n in ('p', 'p ', ' p', 'p  q', '', ' ', '1', '{p}', 'é', 'p%\n', 'P', 'p,q', r'\&', r"p'", 'p&q', '~', '^', '#', '<', '"', '%%', 'p]')
            for f in (r'\begin{align}a\label{%s}\\b\end{align}\eqref{%s}\eqref{ %s}\eqref{%s }', r'\begin{gather}a\\b\label{%s}\end{gather}\eqref{%s}\eqref{ %s}\eqref{%s }', r'\begin{gather*}a\\b\label{%s}\tag{%s}\end{gather*}\eqref{%s}\eqref{%s }',
                      r'\begin{align*}b\label{%s}\tag*{%s}\\c\end{align*}\eqref{%s}\eqref{%s }', r'\begin{multline}a\label{%s}\\b\end{multline}\eqref{%s}\eqref{ %s}\eqref{%s }', r'\eqref{%s}\begin{equation}a\label{%s}\end{equation}\eqref{%s }%% %s')]


# ------------------------------------------------------------------------------------------------ C03, C04

class C03(Prop):
    view = Whole()
    focus = {'env': 5, 'ref': 5, 'define': 6, 'switch': 2}
    envs = NUMBERED_ENVS
    nops = 5

    def scopes(self, deep):
        ws = [r'\begin{align}a\label{p}\\b\end{align}', r'\eqref{p}', r'\gdef\x{1}', r'\def\x{2}', r'\x ', r'\newcommand{\y}{3}\foo', r'\begin{gather}a\end{gather}\foo', r'\bf a', r'\gdef\pi{4}', r'\pi ']
        k = ['global', 'local', 'reset']
        return [scope('calls', words(*ws), 1, 3, kinds=k),
                scope('calls-gg', words(*ws), 1, 2 + deep, kinds=k, config={'global-group': True}),
                scope('snippets', words(*ws[:6]), 2, 2, kinds=['global', 'local'] if deep else ['global']),
                scope('local-after', words(*ws[:5]), 2, 2, kinds=['local', 'global']),
                scope('batches', words(*ws), 2 + deep, 1, kinds=['all']),
                scope('batch-between', words(*ws[:7]), 1, 3, kinds=['all', 'global']),
                scope('limit', words(r'\def\x{a}', r'\x ', r'\def\x{\x}', r'\gdef\x{\y}', r'\gdef\y{b}', r'\y '), 2, 2, kinds=['global', 'local'], config={'max-expansions': 1}),
                scope('inline', words(r'\displaystyle ', r'\sum_a', r'\rm x', r'\left|', r'\begin{array}{|c}a\end{array}', '|', '+'), 2, 2, kinds=['global', 'local'], block=[True, False]) if deep else
                scope('inline', words(r'\displaystyle ', r'\sum_a', r'\rm x', r'\left|a', r'\begin{array}{|c}a\end{array}'), 1, 2, kinds=['global', 'local'], block=[True, False])]

    def fixed(self):
        ws = [r'\begin{align}a\label{p}\\b\end{align}', r'\eqref{p}', r'\gdef\x{1}', r'\def\x{2}', r'\x ', r'\begin{gather}a\label{q}\foo\end{gather}', r'\begin{gather}a\\b\end{gather}\foo', r'\eqref{q}', r'\begin{multline}u\end{multline}', r'\foo', r'\left(']
        out = [session(batch(a, b, c)) for a in ws for b in ws for c in ws]
        out += [session(a, batch(b, c), b) for a in ws for b in ws for c in ws[:7]]
        out += [session(a, batch(b), RESET, c) for a in ws for b in ws for c in ws[:7]]
        return out

    def key(self, sc, ops):
        # the last call, and the calls that it may depend on
        o = ops[-1]
        if o['op'] == 'reset':
            return None
        h = []
        if o['op'] == 'global':
            for p in ops[:-1]:
                if p['op'] == 'reset':
                    h = []
                elif p['op'] == 'global':
                    h.append((p['src'], p['block']))
        if o['op'] == 'all':
            return ('all', tuple((i['src'], i['block']) for i in o['items']))
        return (tuple(h), o['src'], o['block'])

    def pairs(self, rnd, n):
        import gen
        out = []
        g = gen.Gen(rnd, focus=self.focus, envs=self.envs)
        for i in range(n):
            s = g.session(0, rnd.randint(2, 4))
            base = [o for o in s['ops'] if o['op'] in ('global', 'reset')]
            if not base or base[-1]['op'] == 'reset':
                base.append({'op': 'global', 'src': g.snippet(), 'block': rnd.random() < .5})
            extra = lambda: rnd.choice([{'op': 'local', 'src': g.snippet(), 'block': True}, {'op': 'all', 'items': [{'src': g.snippet(), 'block': True} for _ in range(2)]}])
            noisy = []
            for o in base:
                if rnd.random() < .6:
                    noisy.append(extra())
                noisy.append(o)
            again = [o for o in base if o['op'] == 'global'] + [RESET] + base
            for ops in (base, noisy, again):
                out.append((i, dict(s, ops=ops)))
        return out


VALUES = '123456'


def dfn(text, name, mode, v, g=False):
    return W(text, items=[it('def', name=name, mode=mode, v=v, g=g)])


def use(name):
    return W('\\' + name + ' ', items=[it('use', name=name)])


class C04(Prop):
    view = Skeleton(errs=r'already defined|not defined|Unknown command')
    focus = {'define': 14, 'group': 2}
    nest = dict(probes=[r'\a ', r'\def\a{1}', r'\gdef\a{2}', 'x', r'\let\b\a ', r'\b ', r'\newcommand\z{3}', r'\z '], pre=r'\def\b{0}\def\id#1{#1}', post=r'\a\b', macros=[['a', '9'], ['z', '8']], config=[{}, {'global-group': True}], kinds=('global',))
    sweep = (r'\newcommand{\1}{z}', r'\renewcommand{\1}{z}\0', r'\let\1=x\0', r'\def\1{y}\0', r'\let\z\1 \z')
    nops = 4

    def scopes(self, deep):
        ws = [dfn(r'\newcommand{\a}{1}', 'a', 'new', '1'), dfn(r'\renewcommand{\a}{2}', 'a', 'renew', '2'), dfn(r'\providecommand{\a}{3}', 'a', 'provide', '3'),
              dfn(r'\def\a{4}', 'a', 'def', '4'), dfn(r'\gdef\a{5}', 'a', 'def', '5', True), dfn(r'\let\b\a', 'b', 'let', 'a'),
              dfn(r'\global\let\b=\a', 'b', 'let', 'a', True), use('a'), use('b')]
        bi = [dfn(r'\def\pi{1}', 'pi', 'def', '1'), dfn(r'\gdef\pi{2}', 'pi', 'def', '2', True), dfn(r'\renewcommand{\pi}{3}', 'pi', 'renew', '3'),
              dfn(r'\global\def\c{4}', 'c', 'def', '4', True), dfn(r'\renewcommand{\c}{5}', 'c', 'renew', '5'), dfn(r'\let\pi\c', 'pi', 'let', 'c'), dfn(r'\let\c=\pi', 'c', 'let', 'pi'),
              use('pi'), use('c'), W(r'\foo', items=[it('fail')])]
        grp = [W('{'), W('}'), dfn(r'\def\a{4}', 'a', 'def', '4'), dfn(r'\gdef\a{5}', 'a', 'def', '5', True), dfn(r'\newcommand\a{1}', 'a', 'new', '1'), use('a'), W(r'\frac{1}')]
        cfg = {'macros': [['c', '9']]}
        return [scope('one', ws, 4 + deep),
                scope('two', ws, 2, 2),
                scope('kinds', ws, 1, 3, kinds=['global', 'local', 'reset']),
                scope('global-group', ws, 2, 2, config={'global-group': True}),
                scope('levels', bi, 3 + deep, **cfg),
                scope('levels-two', bi, 2, 2, **cfg),
                scope('levels-kinds', bi, 1, 3, kinds=['global', 'local', 'reset'], **cfg),
                scope('groups', grp, 4 + deep, noinv=True),
                scope('batches', words(r'\def\a{1}', r'\gdef\a{2}', r'\a ', r'\foo', r'\newcommand{\b}{\a}', r'\b '), 3 + deep, 1, kinds=['all'], noinv=True)]

    def fixed(self):
        return [session(r'\newcommand{\a}{x}\a\foo', r'\a'), session(r'\gdef\a{x}\foo', r'\a', RESET, r'\a'),
                session(r'\newcommand{\a}{x}', r'\a', config={'global-group': True}), session(local(r'\gdef\a{x}\a'), r'\a'),
                session(batch(r'\gdef\a{x}', r'\a'), r'\a')] + self.chains()

    def chains(self):
        # A definition that outlives its snippet after any chain of `\let`s within the snippet: the second
        # snippet fills its own local definitions with something else before it uses the name.
        steps = [r'\let\b\a', r'\let\a\b', r'\let\c\b', r'\let\a\c', r'\global\let\g\a', r'\global\let\g\c', r'\def\a#1{{#1}z}', r'\global\let\a\g']
        out = []
        for n in range(1, 6):
            for t in itertools.product(steps if n < 4 else steps[:4], repeat=n):
                out.append(session(r'\def\a{xy}\def\b{uv}\let\c\b' + ''.join(t) + r'\global\let\h\a\global\let\k\c', r'\def\z{12345678}\def\a{3}\h{1}\k{2}', r'\g{4}\h{5}'))
        # a definition made by the argument of a macro, for what its body has behind the argument
        defs = [r'\def\q{1}', r'\gdef\q{2}', r'\let\q=+', r'\global\let\q\p', r'\newcommand\q{3}', r'\providecommand{\q}{4}', r'\renewcommand\q{5}', r'\def\q#1{#1#1}']
        for d in defs:
            for before in ('', r'\def\q{0}', r'\let\q=y'):
                for body in (r'#1\q z', r'\q#1', r'{#1\q}\q z', r'#1\text{\q}', r'#1\frac\q{\q}', r'#1^\q', r'#1#1\q'):
                    for ign in ({}, {'ignore-unknown-commands': True}) if not before else ({},):
                        out.append(session(before + r'\newcommand{\p}[1]{' + body + '}\\p{' + d + r'}\q', r'\q', config=ign))
        return out


# ------------------------------------------------------------------------------------------------ C05, C06, C07

class C05(Prop):
    view = Skeleton(errs=r'[Aa]rgument|parameter')
    focus = {'define': 12, 'scripts': 4, 'frac': 2, 'env': 2, 'text': 2}
    nest = dict(probes=['x', '+', '12', r'\h ', r'\k y', r'\m{a}{b}'], about=r'def|let', pre=r'\def\h{u+v}\def\k#1{#1^#1}\def\m#1#2{{#2}#1}')
    sweep = (r'\def\z{\0}\z{x}{y}', r'\def\z#1{\0{#1}}\z{x}{y}', r'\let\z\1 \z{x}{y}')
    nops = 2

    DEFS = r'\newcommand{\f}[1]{x#1^2}\newcommand{\g}[2]{\frac{#2}{#1}}\newcommand{\h}{a+b}\newcommand{\e}{}\newcommand{\r}[1]{\f{\h}-#1}\newcommand{\s}{\rm u}\let\l=\alpha '

    def scopes(self, deep):
        M = lambda t, e: W(t, ex=e)
        uses = [M(r'\f{y}', 'xy^2'), M(r'\f z', 'xz^2'), M(r'\g{a}{bc}', r'\frac{bc}{a}'), M(r'\g1{\h}', r'\frac{a+b}{1}'), M(r'\h ', 'a+b'), M(r'\r{\f{}}', r'xa+b^2-x{}^2'),
                W('='), W('{'), W('}'), W('^2')]
        inside = [M(r'{\h}', '{a+b}'), M(r'{\f{y}}', '{xy^2}'), M(r'{\s v}', r'{\rm u v}'), W(r'\sqrt'), W('^'), W('_'), W('d'), M(r'\text{\e}', r'\text{}'), M(r'\l ', r'\alpha ')]
        later = [W(r'\def\b{1}', ex=r'\def\b{1}'), W(r'\def\b{2}'), M(r'\u ', r'\b '), M(r'\w{\b}', r'{\b}\b '), W(r'\b '), M(r'\l ', r'\alpha '), W(r'\def\alpha{3}', ex='')]
        nine = r'\newcommand{\n}[9]{#9#8{#7}#6^{#5}_#4#3\sqrt{#2}#1}'
        return [scope('uses', uses, 3 + deep, pre=self.DEFS),
                scope('inside', inside, 4 + deep, pre=self.DEFS),
                scope('later', later, 4 + deep, pre=r'\def\b{0}\def\u{\b}\def\w#1{{#1}\b}\let\l\alpha '),
                scope('config', uses, 3, macros=[['r', r'\f{\h}-#1'], ['f', 'x#1^2'], ['g', r'\frac{#2}{#1}'], ['h', 'a+b']]),
                scope('defining', [M(r'\i{\def\q{1}}', r'\def\q{1}'), M(r'\j{\q}{x}', 'x'), M(r'\i{\newcommand{\q}{2}\q}', r'\newcommand{\q}{2}\q '), M(r'\i{\q}', r'\q '), M(r'\i\q ', r'\q '), W(r'\q '), W('{'), W('}'), M(r'\j\q{\i{\i\q}}', r'\q ')], 4,
                      pre=r'\newcommand{\i}[1]{#1}\newcommand{\j}[2]{#2}'),
                scope('nine', [W(r'\n', ex=''), W('a'), W('{b}'), W('{}'), W(r'{c+}'), W(r'\n abcdefghi', ex=r'ih{g}f^{e}_dc\sqrt{b}a'),
                               W(r'\n{a}{}{x}{y}1{}{2}3{{4}}', ex=r'{4}3{2}^{1}_yx\sqrt{}{a}'.replace('{2}^', '{2}{}^').replace('{}{a}', '{}a'))], 2 + deep, pre=nine, noinv=True),
                scope('cells', [M(r'\k{a}{b}', r'a&b\\'), W('&'), W('c'), W(r'\\'), M(r'\h ', 'a+b'), M(r'\m ', r'\begin{matrix}1&2\end{matrix}')], 4 + deep,
                      pre=r'\newcommand{\k}[2]{#1&#2\\}\newcommand{\h}{a+b}\newcommand{\m}{\begin{matrix}1&2\end{matrix}}\begin{matrix}', post=r'\end{matrix}')]

    def key(self, sc, ops):
        if len(ops) != 1:
            return None
        return (sc['pre'], ''.join(w['ex'] for w in ops[0]['ws']), ops[0]['block']) if not sc.get('noinv') else None

    def fixed(self):
        return [session(r'\newcommand{\q}{\bf x}\q y'), session(r'\newcommand{\q}{x\bf x}\q y'), session(r'\newcommand{\f}[1]{#1=}a+\f{b}c'),
                session(r'a+\f{b}c', macros=[['f', '#1=']]), session(r'\newcommand{\a}{\b}\newcommand{\b}{y}\a'), session(r'\let\a\b\newcommand{\b}{y}\a'),
                session(r'\a', macros=[['a', r'\b'], ['b', 'x']]), session(r'\def\a#1#2{#2#1}\a{x}{y}z'), session(r'\newcommand{\z}[1]{\text{#1}}\z{a b}\z{ c }'),
                session(r'\newcommand{\hs}{\limits}\sum\hs_a')] + self.holes() + self.orders()

    def orders(self):
        # the number of arguments of a macro of the configuration follows from its body, in whatever order that mentions them
        out = []
        for n in (1, 2, 3, 4):
            for t in itertools.product('1234' if n < 4 else '129', repeat=n):
                out.append(session(r'\m{a}{b}{c}{d}{e}', r'\frac\m{a}{b}{c}{d}{e}{f}{g}{h}{i}{j}{k}', macros=[['k', 'u#1'], ['m', 'x'.join('#' + d for d in t)]]))
        return out

    ARGS = ('', 'x', 'xy', '{}', '{x}', ' ', '  ', '{ }', ' x', 'x ', ' x y ', '%\n', '%\nx', 'x%\n', '1', '12', '+', '^', '_2', "'", '&', '\\\\', r'\h', r'\h ', r'\e', r'\text{ u }', r'\bf', r'\foo', 'é', '~', r'\ ', r'\,', '{x', '#', r'\k', r'\k ', r'\newcommand\nq{u}\nq', r'\def\nq{u}\nq', r'\nq', r'{\nq x}', r'\foo x')
    HOLES = ('', 'x', r'§\nq', r'\let\nq+§', '§', 'a§b', '{§}', 'x^§', 'x^{§}', 'x_§^§', r'\frac§§', r'\frac{§}2', r'\text{§}', r'\text{a§b}', r'\text§', r'\mathbf{§}', r'\mathrm§', r'\operatorname{§}', r'\sqrt[§]§', r'\left(§\right)', r'\left§x\right)', r'\big§', r'\kern§em x', r'\hspace{§}',
             r'\color{§}x', r'\textcolor{red}{§}', r'\begin{matrix}a§b\end{matrix}', r'\begin{§}a\end{§}', r'\begin{array}{§}a\end{array}', r'\tag{§}', r'\label{§}', r'\mathrel{§}', r'\sum§', r'\not§', r'\hat§', r'\overset§§', r'\def\y{§}\y', r'\def\y##1{§##1}\y{2}', r'\genfrac{§}{)}{§}{§}ab', r'\mathchoice§§§§', r'\big\y§', r'\sideset{§}{}\sum', r'\prescript§§§', r'\k§', r'\k{§}§')

    def holes(self):
        out = []
        for a in self.ARGS:
            for h in self.HOLES:
                pre = r'\def\h{u+v}\def\e{}\def\k#1{#1|#1}'
                out.append(session(local(pre + r'\newcommand\z[1]{%s}\z{%s}w' % (h.replace('§', '#1'), a)),
                                   local(pre + h.replace('##', '#').replace('§', a) + 'w')))
        return out


class C06(Prop):
    view = Status(errs=r'Too many expansions')
    focus = {'define': 14, 'group': 2}
    nest = dict(probes=['x', r'\h ', r'\k y', r'\m{a}{b}'], about=r'def|let', pre=r'\def\h{u+v}\def\k#1{#1^#1}\def\m#1#2{{#2}\h\k#1}', config=[{'max-expansions': n} for n in range(7)])
    nops = 3

    def scopes(self, deep):
        ws = [r'\def\a{}', r'\def\a{x}', r'\def\a{\b}', r'\def\b{\a\a}', r'\def\b{\b}', r'\a ', r'\b ']
        arg = [r'\def\f#1{#1}', r'\def\f#1{#1\f}', r'\f{\f x}', r'\f\f x', r'\f{}', r'x^', r'\text']
        out = []
        for n in range(0, 5):
            out.append(scope('limit%d' % n, words(*ws), 4 + deep, config={'max-expansions': n}))
            if n:
                out.append(scope('args%d' % n, words(*arg), 3 + deep, pre=r'\def\f#1{#1}', config={'max-expansions': n}))
        out.append(scope('calls', words(r'\gdef\a{x}', r'\gdef\a{\a}', r'\gdef\b{\a}', r'\b ', r'\a '), 2, 2, kinds=['global', 'local'] if deep else ['global'], config={'max-expansions': 2}))
        out.append(scope('steps', words(*ws[:6]), 3, config={'max-expansions': 2}, big=False))
        out.append(scope('config', words(r'\a ', r'\b ', r'\c ', r'\d{\a}', r'\d '), 3 + deep, macros=[['a', r'\b'], ['b', r'x'], ['c', r'\c'], ['d', r'#1\b']], config={'max-expansions': 4}))
        return out

    def fixed(self):
        return [session(r'\def\a{x}' + r'\a ' * n, config={'max-expansions': m}) for m in (0, 1, 2, 50) for n in (m - 1, m, m + 1) if n >= 0] + [
            session(r'\def\a{\a}\a', 'x'), session(r'\def\a{\a x}\a', 'x'), session(r'\def\a{\b}\def\b{\a}\a', 'x'), session(r'\def\a{x}' + r'\a ' * 1000), session(r'\def\a{x}' + r'\a ' * 1001),
            session(r'\gdef\a{\a}\a', r'\a', 'y'), session(r'\def\a#1{\a{#1}}\a{x}'), session(r'\a', macros=[['a', r'\a']]), session(r'\def\a{\text{\a}}\a'), session(r'\def\a{x\over\a}\a')]


class C07(Prop):
    view = Skeleton(errs=r'defined|name of a command|[Pp]arameter|Invalid macro name|Switch-like|exactly one token|reached end|[Ee]xpected argument', spans=True)
    focus = {'define': 16, 'stray': 2}
    nest = dict(probes=['x', '#1', r'\def\z{#1}', r'\newcommand\z[1]{#2}', r'\newcommand\pi{2}', '#2', r'\def\y#1#2{#2}', r'\renewcommand\nope{x}'], about=r'def|let')
    sweep = (r'\newcommand{\1}[1]{x}', r'\newcommand\1x', r'\def\1#1{#2}', r'\def\z\1{x}', r'\providecommand{\1}{#3}', r'\newcommand{\z}{\0}', r'\let\z\1', r'\newcommand{\z}[\1]{x}')
    nops = 2

    def scopes(self, deep):
        good = lambda t, n, mode='def': W(t, items=[it('def', name=n, mode=mode)])
        bad = lambda t, msg: W(t, items=[it('bad', v=msg)])
        P = 'Invalid parameter number. Must be 1-9.'
        ws = [good(r'\newcommand{\a}{x}', 'a', 'new'), good(r'\renewcommand{\a}{x}', 'a', 'renew'), good(r'\providecommand{\a}{x}', 'a', 'provide'), good(r'\renewcommand\pi[2]{#2#1}', 'pi', 'renew'),
              good(r'\newcommand\pi{y}', 'pi', 'new'), good(r'\def\a#1#2{#1}', 'a'), good(r'\let\a=b', 'a'), good(r'\newcommand*{\a}{x}', 'a', 'new') if False else good(r'\gdef\a{}', 'a'),
              bad(r'\newcommand{a}{x}', 'Expected the name of a command.'), bad(r'\def a{x}', 'Expected the name of a command.'), bad(r'\newcommand{\b}[0x]{x}', P), bad(r'\newcommand{\b}[x]{x}', P),
              bad(r'\newcommand{\b}[1]{#2}', 'Parameter number 2 is out of range. Expected a number of at most 1.'), bad(r'\newcommand{\b}{#1}', 'Parameter number 1 is out of range. Expected a number of at most 0.'),
              bad(r'\def\b#2{x}', 'Expected parameter #1, found #2. Parameters must be numbered consecutively, starting at 1.'), bad(r'\def\b#1#1{x}', 'Expected parameter #2, found #1. Parameters must be numbered consecutively, starting at 1.'),
              bad(r'\def\b#1,{x}', 'Delimited parameters are not supported. Expected "#n" or "{" here.'), bad(r'\def\b x{x}', 'Delimited parameters are not supported. Expected "#n" or "{" here.'),
              bad(r'\newcommand{\b}{\newcommand{\c}{x}}', 'Switch-like commands cannot be used as arguments.'), bad(r'\def\b{\def\c{x}}', 'Switch-like commands cannot be used as arguments.'),
              bad(r'\def\b{\let\c\d}', 'Switch-like commands cannot be used as arguments.'), bad(r'\newcommand{\b\c}{x}', 'Expected exactly one token as argument.'),
              bad(r'\let\b\undefd ', 'Unknown command "\\undefd".'), bad(r'\global x', r'Found "\global", which may only appear directly before \let or \def.'),
              bad(r'\global\newcommand{\b}{x}', r'Found "\global", which may only appear directly before \let or \def.'),
              W(r'\pi '), W(r'\a bc', items=[it('use', name='a')])]
        chars = words(r'\newcommand', r'\def', r'\let', r'\a', '{', '}', '[1]', '#1', 'x', '#2')
        braces = words('{', '}', '#1', 'x', r'\def', r'\a')
        end = [bad(r'\newcommand', 'Expected the name of a command.')]
        return [scope('definitions', [w for w in ws if w['text'] not in (r'\pi ',)], 2, 1, kinds=['local']),
                scope('three', ws[:8] + ws[-2:] + ws[12:14], 3 + deep, 1, kinds=['local'], noinv=True),
                scope('pieces', chars, 3, pre=r'\newcommand', noinv=True),
                scope('pieces-def', chars, 3, pre=r'\def\a', noinv=True),
                scope('bodies', braces, 4 + deep, pre=r'\newcommand{\b}[1]', noinv=True),
                scope('after', words(r'\newcommand{\a}[2]{#1#2}', r'\newcommand{\a}{#1}', r'\providecommand{\a}{z}', r'\renewcommand{\a}[1]{#2}', r'\gdef\a{w}', r'\a ', 'xy'), 2, 2, noinv=True)]

    def fixed(self):
        out = []
        for name, body in [('a', 'x'), ('', 'x'), ('ab', 'x'), ('a1', 'x'), ('1', 'x'), ('+', 'x'), ('é', 'x'), ('12', 'x'), ('a b', 'x'), (' ', 'x'), ('a', r'\zzz'), ('a', '#1'), ('a', '#0'), ('a', '#'), ('a', '#x'),
                           ('a', '{'), ('a', '}'), ('a', r'\begin{foo}'), ('a', r'\a'), ('a', r'\newcommand{\b}{x}'), ('a', r'\def\b{x}'), ('a', '#9'), ('a', '%'), ('a', r'\left(')]:
            for before in ([], [['ok', 'y']], [['ok', r'\a'], ['o', '#2']]):
                out.append(session(r'\ok', r'\a{1}{2}{3}{4}{5}{6}{7}{8}{9}', macros=before + [[name, body]]))
        for mode in ('new', 'renew', 'provide'):
            for a in (r'\a', r'\pi', r'\c', r'\d'):                    # unknown, built in, from the configuration, from the document
                for nm in ('{%s}', '%s', '{%sx}' if mode != 'new' else '{%s x}', '{%s%s}' % (a, a), '{}', '{a}', '{%s', ' { %s } '):
                    for cnt in ('', '[1]', '[x]', '[1', '[]', '[2]'):
                        for body in ('{x}', '{#1}', '{#2}', 'x', '#1', r'{\def\z{}}', '{%s}', ''):
                            if (nm not in ('{%s}', '%s')) + (cnt not in ('', '[1]')) + (body not in ('{x}', '{#1}')) <= 2:
                                f = lambda x: x.replace('%s', a + (' ' if x == '%sx}' else ''))
                                out.append(session(r'\def\d{v}\%scommand%s%s%s' % (mode, f(nm), cnt, f(body)) + a + '{y}', macros=[['c', 'w']]))
        for d in (r'\def', r'\gdef', r'\global\def', r'\global\global\gdef'):
            for a in (r'\a', r'\pi', '{\\a}', 'a', '1', '', r'\begin{matrix}', r'\{'):
                for par in ('', '#1', '#1#2', '#2', '#1#1', '#1 #2', ' #1', '#1 ', ',', '#', '#0', '#1#2#3#4#5#6#7#8#9', '[#1]'):
                    for body in ('{x}', '{#1}', '{#2}', 'x', r'{\let\z x}', '{{#1}}', '{', ''):
                        if (a not in (r'\a', r'\pi')) + (par not in ('', '#1', '#1#2')) + (body not in ('{x}', '{#1}')) <= 1 or d == r'\def' and body == '{x}':
                            out.append(session(d + a + par + body + 'u' + a + '{y}{z}'))
        out += [session(r'\newcommand{\a}[10]{x}'), session(r'\newcommand{\a}[9]{#9}\a123456789'), session(r'\newcommand\a', 'x'), session(r'\newcommand{\a', 'x'), session(r'\newcommand{\a}{x', 'x'),
                session(r'\def'), session(r'\def\a'), session(r'\def\a#'), session(r'\let'), session(r'\let\a'), session(r'\let\a='), session(r'\global'), session(r'\newcommand{\a}[1]{#}')]
        return out


# ------------------------------------------------------------------------------------------------ C08

class C08(Prop):
    view = Status(errs=r'closing token|reached end of input|but found "|Expected argument|parenthesis|Unexpected "\$"', spans=True)
    focus = {'fence': 6, 'env': 6, 'group': 5, 'sqrt': 4, 'stray': 6, 'text': 3}
    nest = dict(probes=['x', ''], damage=.75)
    nests = (5000, 30000)
    sweep = (r'\left\0 x\right\0', r'{\0', r'\0}', r'\0', r'\frac{\0', r'\begin{matrix}\0\end{matrix}', r'\sqrt[\0]x')

    def scopes(self, deep):
        O, C = lambda t, v: W(t, 'o', v), lambda t, v: W(t, 'c', v)
        br = [O('{', '{'), C('}', '{')]
        lr = [O(r'\left(', 'left'), C(r'\right]', 'left')]
        env = lambda e, spec='': [O(r'\begin{%s}%s' % (e, spec), e), C(r'\end{%s}' % e, e)]
        x = [W('a')]
        args = [W(r'\overline ', 'p'), W(r'\sqrt ', 'p'), W(r'\hat ', 'p')]
        mixed = words('{', '}', r'\sqrt[', ']', '[', r'\left.', r'\right.', r'\middle|', r'\begin{cases}', r'\end{cases}')
        text = words(r'\text', r'\textbf', '{', '}', 'a', '$', r'\left(', r'\end{matrix}', r'\&')
        two = words(r'\frac', '{', '}', 'a', '^', '_', r'\right)', r'\left(', '&')
        cmds = words(r'\binom', r'\mathbf', r'\operatorname', r'\overset', r'\color{red}', r'\over ', '{', '}', 'a')
        return [scope('nest', br + lr + env('matrix') + x, 5 + deep),
                scope('envs', env('matrix') + env('pmatrix') + env('align') + br, 4 + deep),
                scope('env-args', env('array', '{c}') + env('cases') + lr + br, 4 + deep),
                scope('args', br + lr + args + x, 4 + deep),
                scope('mixed', mixed, 4 + deep, noinv=True),
                scope('text', text, 4 + deep, noinv=True),
                scope('two', two, 4 + deep, noinv=True),
                scope('cmds', cmds, 4 + deep, noinv=True),
                scope('defs', words(r'\def\a', r'\a ', '{', '}', r'\newcommand', r'\left(', r'\right)'), 4 + deep, noinv=True),
                scope('lexer', words(r'\begin', r'\end', '{', '}', 'matrix', r'{matrix}', 'x', ' ', '\\'), 4 + deep, noinv=True)]

    def fixed(self):
        import gen
        env = lambda a, x='a': r'\begin{%s}%s%s' % (a, '{c}' if a in ('array', 'darray', 'subarray') else '', x)
        pairs = [session(env(a) + r'\end{%s}' % b, r'{' + env('matrix', env(a, r'{\left(a\right)}') + r'\end{%s}\end{matrix}}' % b)) for a in gen.ENVS for b in gen.ENVS + ['', 'Align', 'matri', 'align**', 'smallmatrix']]
        for e in gen.ENVS:                  # a name is taken as it is written
            spec = '{c}' if e in ('array', 'darray', 'subarray') else ''
            for v in (' ' + e, e + ' ', e + '\n', e[:3] + ' ' + e[3:], e + '*', e.rstrip('*'), e.upper(), e.capitalize(), '{%s}' % e, '%%\n' + e, e + '%\n', e + e, e[0], ''):
                pairs += [session(r'\begin{%s}%sa\end{%s}' % (v, spec, e), r'\begin{%s}%sa\end{%s}' % (e, spec, v), r'\begin{%s}%sa\end{%s}' % (v, spec, v))]
        return pairs + [session(s) for s in (r'\begin{matrix}{a & b}\end{matrix}', r'{a \\ b}', r'\sqrt[', r'\sqrt[3', r'\sqrt[]]{x}', r'\sqrt[{]}]{x}', r'\left', r'\left(', r'\left\langle a\right', r'\left(a\right)\right)', r'\begin{align}\begin{aligned}a\end{align}\end{aligned}',
                                     r'\begin{matrix}\left(\end{matrix}\right)', r'{\begin{matrix}a}\end{matrix}', r'\end{matrix}', r'}', r'a}b', r'\frac{a', r'\frac{a}', r'\text{a', r'\text{a{b}', r'\mathchoice{a}{b}{c}', '{' * 40 + 'x' + '}' * 40, '{' * 40 + '}' * 39)]


# ------------------------------------------------------------------------------------------------ C10 .. C14

class C10(Prop):
    view = Scripts()
    focus = {'scripts': 14, 'bigop': 6, 'prime': 6, 'wrap': 5, 'accent': 2, 'misc': 2}
    nest = dict(probes=['x', r'\sum ', "x'", 'x_1', r'\sum_1', r'\lim^2', '', '{}^3'], about=r"[\^_']|lim|set|brac|mathop|operat|script|sum|int")
    chars = True
    sweep = ((r'\0_a^b', False), r'\0_a^b', r'\0\limits_a', r'\0{x}_a{}^b', r"\0'^c", r'x^\0', r'\prescript{\0}{1}{X}', (r'\0\limits_a^b', False), r'\0\nolimits_a^b', r'\0\displaylimits^b', (r'\0\displaylimits_b', False), r'\textstyle\0_a\0\limits^b',
             r'\sideset{_p}{^q}\0_a', r'\0{x}\limits_a', r"x_a\0^b", r"x^a\0\0_b", r"a'\0b", r'\sideset{_\0}{\0}\sum\limits', r'{\0_a}^b', r'\displaystyle x^{\0_a}', r'\0^_a', r"_\0'")

    def scopes(self, deep):
        s = [W('^b', 'sup'), W('_c', 'sub'), W('^{de}', 'sup'), W(r'\limits ', 'lim'), W(r'\nolimits ', 'lim')]
        base = [W('a'), W(r'\sum '), W('{'), W('}')]
        prime = words('a', "'", '^b', '_c', '{', '}', r'\int ', r'^\prime ', '^{\'}')
        ops = words(r'\lim ', r'\int ', r'\mathop{x}', r'\operatorname*{q}', r'\operatorname{q}', r'\bigcup ', r'\limits ', r'\nolimits ', r'\displaylimits ', '^b', '_c')
        over = words(r'\overbrace{x}', r'\underbrace{x}', r'\overset{p}', r'\underset{p}', r'\stackrel{p}', r'\hat{x}', r'\overline{x}', r'\xrightarrow{p}', '^b', '_c', 'a', "'")
        styles = words(r'\textstyle ', r'\displaystyle ', r'\sum ', r'\lim ', '^b', '_c', r'\limits ', '{', '}', r'^{\sum_d}', r'\frac{\sum_e}{f}')
        raw = words('^', '_', "'", 'a', '{', '}', '{}', ' ', r'\limits ', '1')
        mids = words('+', '=', '(', ')', r'\left(a\right)', r'\begin{matrix}a\end{matrix}', r'\frac{a}{b}', r'\mathbf{x}', r'\text{t}', r'\,', r'\bf ', '^b', '_c', '&')
        macro = words(r'\m ', r'\n ', r'\o ', r'\p ', '^b', '_c', 'a', "'", r'\e ', r'\q{a}')
        return [scope('order', base + s, 4 + deep),
                scope('order-inline', base + s, 3 + deep, block=[False]),
                scope('primes', prime, 4 + deep, noinv=True),
                scope('prime-kinds', words(*"'\u2032\u2033\u2034\u2035\u2036\u2037\u2057", '^b', 'a', '_c'), 4 if deep else 3, noinv=True),
                scope('limits', ops, 4 if deep else 3, block=[True, False]),
                scope('over', over, 4 if deep else 3, noinv=True),
                scope('styles', styles, 4 if deep else 3, block=[True, False], noinv=True),
                scope('raw', raw, 4 + deep, noinv=True),
                scope('bases', mids, 4 if deep else 3, noinv=True),
                scope('sideset', words(r'\sideset{_p}{^q}', r'\sideset{^p}{}', r'\int ', r'\lim ', 'x', r'\limits ', r'\nolimits ', '^b', '_c', '{'), 4 if deep else 3, block=[True, False], pre=r"\sideset{}{'}", noinv=True),
                scope('prescript', words(r'\prescript{p}{q}', r'\prescript{}{q}', '{x}', r'\sum ', r'\limits ', '^b', '_c', "'", '{', '}'), 4 if deep else 3, block=[True, False], noinv=True),
                scope('macros', macro, 4 if deep else 3, pre=r'\def\m{x^y}\def\n{\sum}\def\o{\limits}\def\p{^z}\def\e{}\def\q#1{#1_w}', noinv=True),
                scope('table', words('a', '&', r'\\', '^b', '_c', "'", r'\sum '), 4 + deep, pre=r'\begin{matrix}', post=r'\end{matrix}', noinv=True)]

    def key(self, sc, ops):
        return None

    def sides(self):
        import itertools
        side = ('', "'", '_a', '^b', '_a^b', "'_a", "_a'", "'^b", '\u2032\u2035', 'x', '{}_a', '^a^b', r'_{\sum_1}', '_', "''", r'^\sum', r'\limits', '{_a}', '{', ' _a ')
        op = (r'\sum', r'\int', r'\lim', 'x', r'\int\limits', r'\sum\nolimits', r'{\sum}', r'\mathop{x}', r'\bigcup\displaylimits', r'\lim\limits', r'\operatorname*{q}', r'\mathop{x}\limits', r'\textstyle\sum', r'\foo', r'\sin', r'\int\limits\nolimits', r'\sum\displaylimits\limits', '')
        out = []
        for a, b, o in itertools.product(side, side, op):
            if zlib.crc32((a + '|' + b + o).encode()) % 4 == 0 or (a in side[:6] and b in side[:6]):
                c = ('', '_a', '^b', '_a^b', "'", r'\limits_a', "'^b", '_a_b', '{}')[zlib.crc32((o + a + b).encode()) % 9]
                t = r'\sideset{%s}{%s}%s%s' % (a, b, o, c if o[-1:].isalpha() or not o else ' ' + c)
                out.append(session(local(t), local(t, False), local(r'\frac{%s}{x}y' % t)))
                if zlib.crc32((b + a + o).encode()) % 3 == 0:
                    t = r'\prescript{%s}{%s}{%s}%s' % (a[1:] if a[:1] in '_^' else a, b[1:] if b[:1] in '_^' else b, o, c)
                    out.append(session(local(t), local(t, False)))
        return out

    def fixed(self):
        return self.sides() + [session(s) for s in (r'a & ^2', r'x^', r'x_', r'x^^y', r'x^_y', r"x^'", r"x''^a_b", r"x_a''^b", r"x_a^b'", r"\sum'_a^b", r"\sum\limits'^a", r'\limits', r'a\limits_b', r'\sum\limits\nolimits_a', r'\lim_{a}^{b}\nolimits',
                                     r'{\sum}_a^b', r'\prescript{a}{b}{X}_c^d', r'\sideset{}{^a}\sum_b', r'^a', r'_a^b', r"'", r'{}^a', r'\frac{^a}{_b}', r'\left(^a\right)_b', r'\sqrt[^a]{_b}', r"f''''", r"f'''''^a", r'\mathop{\rm lim}_a', r'\text{a}^b_c')] + [
            session({'op': 'global', 'src': r'\sum_a^b\sum\limits_a\int\limits_c\lim_d\displaystyle\sum_e', 'block': b}) for b in (True, False)]


class C11(Prop):
    view = Styles()
    focus = {'switch': 6, 'choice': 10, 'scripts': 5, 'frac': 6, 'sqrt': 4, 'env': 3, 'infix': 4, 'bigop': 3, 'wrap': 2, 'group': 4, 'misc': 2}
    nest = dict(probes=[r'\mathchoice dtsr', r'\mathchoice dtsr', r'\sum_1', 'x'])
    nests = (8000, 40000)
    sweep = (r'\0{\mathchoice dtsr}{\mathchoice dtsr}{\mathchoice dtsr}\mathchoice dtsr', r'x^{\0 a}\mathchoice dtsr', (r'\0\mathchoice dtsr', False), r'\begin{matrix}\0{\mathchoice dtsr}&\mathchoice dtsr\end{matrix}')

    def scopes(self, deep):
        P = W(r'\mathchoice{D}{T}{S}{X}', 'probe')
        push = lambda t, v: W(t, 'push', v)
        pop, nxt = W('}', 'pop'), W('}{', 'next', '')
        st = [W(r'\displaystyle ', 'set', 'D'), W(r'\scriptstyle ', 'set', 'S')]
        st2 = [W(r'\textstyle ', 'set', 'T'), W(r'\scriptscriptstyle ', 'set', 'SS')]
        blk = [True, False] if deep else [True]
        fr = lambda c, v: [P, push(c + '{', v), W('}{', 'next', v), pop, st[1], push('a^{', 'script')]
        tab = [P, W('&', 'cell'), W(r'\\', 'cell'), st[0], st[1], W('{', 'push', 'same'), pop]
        return [scope('groups', [P, push('{', 'same'), pop] + st + [st2[1]], 5 + deep, block=blk),
                scope('scripts', [P, push('a^{', 'script'), push('b_{', 'script'), pop, st[0], st2[0]], 5 + deep, block=[False, True] if deep else [False]),
                scope('frac', fr(r'\frac', 'frac'), 5 + deep, block=blk),
                scope('dfrac', fr(r'\dfrac', 'fracD'), 5, block=blk),
                scope('tfrac', fr(r'\tfrac', 'fracT'), 5, block=blk),
                scope('binom', fr(r'\binom', 'frac'), 5, block=blk),
                scope('sqrt', [P, push(r'\sqrt{', 'same'), push(r'\left(', 'same'), W(r'\right)', 'pop'), pop] + st, 4 + deep, block=blk),
                scope('root', [P, push(r'\sqrt[', 'root'), W(']{', 'next', ']'), push(r'x^{', 'script'), pop] + st, 5 + deep, block=blk),
                scope('stack', [P, push(r'\overset{', 'label'), W('}{', 'next'), pop, push(r'\underset{', 'label'), push(r'\stackrel{', 'label'), push(r'\frac{', 'frac'), st[0]], 5 if deep else 4, block=blk),
                scope('arrows', [P, push(r'\xrightarrow[', 'labels'), W(']{', 'next', ']'), push(r'\xleftarrow{', 'script'), push(r'\xlongequal{', 'script'), pop, push(r'\frac{', 'frac'), W('}{', 'next'), st[0]], 5 if deep else 4, block=blk),
                scope('labels', [P, push(r'\underbrace{', 'same'), push(r'\overbrace{', 'same'), push(r'\overbracket{', 'same'), W('}_{', 'next', 'script'), W('}^{', 'next', 'script'), pop, push(r'{', 'same'), st[0], st[1]], 5 if deep else 4, block=blk),
                scope('prescript', [P, push(r'\prescript{', 'pre'), W('}{', 'next'), pop, st[1], push(r'\sqrt{', 'same')], 5 + deep, block=blk),
                scope('cramped', [P, push(r'\cramped{', 'same'), push(r'\cramped[\scriptstyle]{', 'S'), push(r'\cramped[\displaystyle]{', 'D'), push(r'\cramped[\textstyle]{', 'T'), push(r'\cramped[\scriptscriptstyle]{', 'SS'), pop, push('x_{', 'script'), st[1]], 4 + deep, block=blk),
                scope('cells', [P, push(r'\begin{matrix}', 'T'), push(r'\begin{cases}', 'T'), W(r'\end{matrix}', 'pop'), W(r'\end{cases}', 'pop'), W('&', 'cell'), W(r'\\', 'cell'), st[0], st[1], push('{', 'same'), pop], 5 if deep else 4, block=blk),
                scope('in-cells', [P, W('&', 'cell'), W(r'\\', 'cell'), st[0], st[1], push('{', 'same'), pop, push(r'\frac{', 'frac'), W('}{', 'next')], 4 + deep, pre=r'\begin{matrix}', post=r'\end{matrix}' + P['text'], noinv=True),
                scope('align', [P, push(r'\begin{align*}', 'D'), push(r'\begin{aligned}', 'D'), push(r'\begin{dcases}', 'D'), push(r'\begin{subarray}{c}', 'S'), push(r'\substack{', 'S'), W(r'\end{align*}', 'pop'), W(r'\end{aligned}', 'pop'), W(r'\end{dcases}', 'pop'), W(r'\end{subarray}', 'pop'), pop, W('&', 'cell'), W(r'\\', 'cell'), st[1]], 4 if deep else 3, block=[False, True]),
                scope('in-align', [W(w['text']) for w in tab], 5 if deep else 4, pre=r'\begin{align*}', post=r'\end{align*}' + P['text'], block=[False], noinv=True),
                scope('infix', [P, W(r'\over '), W(r'\choose '), W('{'), W('}'), W(r'\scriptstyle '), W(r'\frac')], 5 if deep else 4, noinv=True),
                scope('wraps', [P] + [push(t, 'same') for t in (r'\mathop{', r'\boxed{', r'\phantom{', r'\mathrel{', r'\overline{', r'\hat{', r'\cancel{', r'\mathllap{', r'\smash{', r'\textcolor{red}{', r"\mathbin{", r"\left.", r"\underline{")] + [push(r'\pmod{', 'same'), W(r'\right.', 'pop'), st[0], st[1], pop], 4 if deep else 3),
                scope('others', [P] + words(r'\operatorname{', r'\substack{', r'\displaystyle ', '}', '}{', r'\genfrac(){0pt}{2}{', r'\genfrac(){0pt}{}{', r'\sideset{_{', r'\cfrac{', r'\text{'), 4 if deep else 3, noinv=True),
                scope('macros', [P] + words(r'\s ', r'\t{\scriptstyle ', r'\u{', '}', '{', '^'), 4 + deep, pre=r'\def\s{\scriptstyle}\def\t#1{{#1}}\def\u#1{\frac{#1}{#1}}', noinv=True)]

    def fixed(self):
        p = r'\mathchoice{D}{T}{S}{X}'
        around = ('§', r'\frac{§}{P}', 'x^{§}', r'x_{y^{§}}', r'{\scriptstyle §}P', r'{\scriptscriptstyle §}', r'{\textstyle §}P', r'{\displaystyle §}P', r'\sqrt[§]{P}', r'\begin{matrix}§&P\end{matrix}', r'\begin{dcases}§\end{dcases}', r'\cfrac{§}{P}', r'\substack{§}', r'\mathchoice{§}{§}{§}{§}')
        forms = [r'\begin{%s}%sP&P\\P&\scriptstyle P&P\\P&P\end{%s}P' % (e, '{c|r}' if 'array' in e else '', e) for e in gen.ENVS] + [r'\genfrac{%s}{%s}{%s}{%s}{P}{P}P' % (a, b, c, d) for a, b in (('', ''), ('(', ')'), ('', ']')) for c in ('', '0pt', '1em') for d in ('', '0', '1', '2', '3')] + [
            r'\cramped{P}P', r'\cramped[\displaystyle]{P}P', r'\cramped[\textstyle]{P}P', r'\cramped[\scriptstyle]{P}P', r'\cramped[\scriptscriptstyle]{P}P', r'\cramped[]{P}P', r'\cramped{\scriptstyle P}P', r'\cramped{\frac PP}P', r'\cramped P', r'{P\atop P}P', r'{P\brace P}P', r'{P\brack P}P', r'{P\above1pt P}P',
            r'\mathclap{P}P', r'\mathllap{P}P', r'\smash{P}P', r'\phantom{P}P', r'\boxed{P}P', r'\cancel{P}P', r'\overset{P}{\sum_P}P', r'\stackrel{P}PP', r'\operatorname{P}P', r'\pmod{P}P', r'\bmod P', r'\mod PP', r'\pod PP', r'\set{P|P}P', r'\Set{P|P}P', r'\bra PP', r'\Braket{P|P}P', r'\xlongequal[P]{P}P', r'\overbrace{P}^PP', r'\underset PPP', r'\mathrel{P}P', r'\mathop{P}_PP', r'\mathop{P}\limits^PP']
        return [session(local(a.replace('§', f).replace('P', p)), local(a.replace('§', f).replace('P', p), False)) for a in around for f in forms] + [session({'op': 'global', 'src': s.replace('P', p), 'block': b}) for b in (True, False) for s in (
            r'P\displaystyle P', r'{\scriptstyle P}P', r'\frac{P}{P}P', r'\cfrac{P}{P}P', r'a^{P^P}_PP', r'\sqrt[P]{P}P', r'\begin{matrix}\scriptstyle P&P\\P\end{matrix}P', r'\begin{cases}P\\\displaystyle P\\P\end{cases}P', r'\begin{align*}P&\scriptstyle P\\P\end{align*}P',
            r'\left(\scriptstyle P\middle|P\right)P', r'\overset{P}{P}P', r'\underbrace{P}_PP', r'\sum_P^PP', r'P\over P', r'{\scriptstyle P\over P}P', r'\color{red}\scriptstyle P', r'\text{a}P', r'\genfrac(){1pt}{0}{P}{P}P', r'\genfrac(){1pt}{3}{P}{P}P', r'\xrightarrow[P]{P}P', r'\substack{P\\P}P', r'\mathchoice{P}{P}{P}{P}', r'\prescript{P}{P}{P}P', r'\begin{subarray}{c}P\\P\end{subarray}P', r'\dbinom PPP', r'\tbinom PPP', r'\hat PP', r'\not=P', r'\bmod P', r'\pmod{P}P')]


class C12(Prop):
    view = Fonts()
    focus = {'font': 10, 'switch': 8, 'group': 4, 'env': 2, 'scripts': 2, 'misc': 3, 'text': 1}
    nest = dict(probes=['aB', '1a', 'a1', r'\alpha b', r'\Gamma ', 'é', '7', r'\sin x', r'\pi ', r'\imath '], about=r'\\math[a-z]*@|bold|\\bf|\\rm|operatorname|text')
    nests = (6000, 40000)
    chars = True
    sweep = (r'\mathbf{\0 a1}b', r'\mathrm\0 ab', r'\mathcal{\0}{x}Az', r'\0{aB}{c}d', r'{\bf \0 a}b', r'\mathbb\0', r'\mathfrak\0', r'\rm\0', r'\mathtt{\0\0}', r'\mathit{a\0}', r'\boldsymbol{\0}\bm\0', r'\mathbf\0{aB}{c}d', r'\mathscr{\0\mathbf\0}\0', r'\mathsf\0', r'\operatorname{\0 a}', r'\mathrm{\0 1}', r'\symbf{\0}')

    def scopes(self, deep):
        push = lambda t, v: W(t, 'push', v)
        pop = W('}', 'pop')
        L = lambda d: {k: v for k, v in d.items()}
        x = W('x')
        letters = {'normal': 'x', 'bf': '𝐱', 'bb': '𝕩', 'frak': '𝔵', 'sf': '𝗑', 'tt': '𝚡'}
        base = [x, push(r'\mathbf{', 'bf'), push(r'\mathfrak{', 'frak'), push('{', 'same'), pop, W(r'\bf ', 'set', 'bf'), W(r'\tt ', 'set', 'tt')]
        rel = [x, push(r'\mathsf{', 'sf'), push('{}^{', 'same'), push(r'\sqrt{', 'same'), push(r'\left(', 'same'), W(r'\right)', 'pop'), pop, W(r'\sf ', 'set', 'sf')]
        glyph = words('A', '1', r'\alpha ', r'\Gamma ', '+', r'\sin ', r'\text{x}', 'é', r'\partial ', 'ab', r'\hbar ', r'\imath ')
        fonts = [r'\mathbf', r'\mathrm', r'\mathit', r'\mathcal', r'\mathbb', r'\mathfrak', r'\mathsf', r'\mathtt', r'\mathscr', r'\boldsymbol', r'\bm', r'\symbf', r'\mathnormal']
        cells = words('x', r'\bf ', r'\mathtt{', '{', '}', '&', r'\\', r'\rm ')
        out = [scope('reach', base, 5 + deep, letters=letters),
               scope('places', rel, 4 + deep, letters=letters),
               scope('cells', cells, 5 if deep else 4, pre=r'\begin{matrix}', post=r'\end{matrix}x', noinv=True),
               scope('cells-in-font', words('x', r'\it ', r'\sf ', '&', r'\\', '{', '}'), 5 if deep else 4, pre=r'\mathbf{\begin{matrix}', post=r'\end{matrix}x}x', noinv=True),
               scope('env-in-font', words('x', r'\it ', r'\begin{aligned}', r'\end{aligned}', '&', r'\\', '}'), 5 if deep else 4, pre=r'{\bf\begin{aligned}', post=r'\end{aligned}x}x', noinv=True),
               scope('switches', words('x', 'N', '7', r'\rm ', r'\it ', r'\cal ', r'\bf ', '{', '}'), 5 if deep else 4, noinv=True),
               scope('arguments', words('x', '^', '_', r'\mathbf', r'\mathrm', r'\frac', '{', '}', r'\rm '), 5 if deep else 4, noinv=True),
               scope('runs', words('x', 'y', '1', r'\mathrm{', r'\operatorname{', r'\mathbf{', r'\mathit{', '}', ' ', '-'), 4 + deep, noinv=True),
               scope('macros', words('x', r'\s ', r'\f{', r'\g{', '}', '{', r'\mathsf{'), 5 if deep else 4, pre=r'\def\s{\bf}\def\f#1{\mathtt{#1}y}\def\g#1{{\rm #1}#1}', noinv=True)]
        for i, f in enumerate(fonts):
            out.append(scope('glyphs%d' % i, glyph + [W('{'), W('}')], 2 + deep, pre=f + '{', post='}x', noinv=True))
        return out

    def fixed(self):
        import string
        out = []
        tf, sw = gen.all_names('tf'), gen.all_names('tfsw')
        for i, f in enumerate(tf + sw):
            for j, g in enumerate(tf + sw):
                a, b = f, g
                tm = [r'Ga#G{aB}^7G\alpha b', r'F\overbrace G{aB}^7\alpha b', r'F\frac G{a}{b}c', r'F\sqrt Gab', r'FGab', r'F{Gab}c', r'Fx^Gab', r'F{aGb{c}d}e', r'F\sqrt[Ga]bc', r'F{\operatorname{ab}Gcd}e', r'F{\text{Gab}c}Gde', r'F\begin{matrix}Ga&b\\F c&d\end{matrix}e', r'F\left(Ga\middle|Fb\right)c', r'F{a\over Gbc}d', r'F\mathop{Ga}_bc', r'F\mathchoice{Ga}b{c}de', r'F\textcolor{red}{Ga}b', r'\def\k#1{F#1}\k{Ga}b', r'F\hat Gab', r'F\binom{Ga}Gbc', r'F\substack{Ga\\b}c', r'F\cancel Gab', r'F\mathrel{Ga}b', r'\sideset{_Fa}{^Gb}\sum_a', r'F\overset{Ga}bc', r'F\xrightarrow[Ga]bc', r'F\smash{Ga}b', r"F{a}'GbF", r'F{a}G_bc', r'F{}Gab']
                k = zlib.crc32((f + g).encode())
                for t in (tm[(k + 5 * n) % len(tm)] for n in range(5)):
                    out.append(session(local(t.replace('F', a).replace('G', b).replace('#', a)), local(r'\mathsf{' + t.replace('G', a).replace('F', b).replace('#', '') + '}x')))
        for f in ('mathbf', 'mathrm', 'mathit', 'mathcal', 'mathbb', 'mathfrak', 'mathsf', 'mathtt', 'mathscr', 'boldsymbol', 'bm', 'mathnormal', 'symbf', 'symup', 'mathbfit', 'mathbfcal', 'mathsfit', 'symsfup', 'symbfsf'):
            for s in (string.ascii_letters, string.digits, r'\alpha\beta\gamma\delta\epsilon\varepsilon\zeta\eta\theta\vartheta\kappa\varkappa\pi\varpi\rho\varrho\sigma\varsigma\phi\varphi\omega', r'\Gamma\Delta\Theta\Lambda\Xi\Pi\Sigma\Upsilon\Phi\Psi\Omega\nabla\partial'):
                out.append(session('x\\%s{%s}x' % (f, s)))
        out += [session(r'\bf a\rm b{\it c}d'), session(r'{\bf a}b'), session(r'\frac{\bf a}{b}c'), session(r'\bf\frac{a}{b}c'), session(r'\begin{matrix}\bf a&b\\c\end{matrix}d'), session(r'\left(\bf a\middle|b\right)c'), session(r'x^{\bf a}b'), session(r'\mathbf{a\mathrm{b}c}d'), session(r'\mathrm{ab}c'), session(r'\mathbf{a\rm b}c'), session(r'\text{\bf a}b'), session(r'\bf\text{a}b')]
        return out


class C13(Prop):
    view = Tables()
    focus = {'env': 18, 'group': 2, 'fence': 2, 'infix': 2, 'text': 1, 'color': 1, 'switch': 1}
    nest = dict(probes=['a', 'a', 'a&b', r'a\\b', '', r'\hline '], about=r'begin|substack')
    sweep = (r'\begin{array}{c|c}\0&\0{x}\\\0 y\end{array}', r'\begin{cases}\0\\\0\end{cases}')

    def scopes(self, deep):
        sep = [W('&', 'col'), W(r'\\', 'row')]
        nest = [W('{', 'o'), W('}', 'c'), W(r'\begin{matrix}', 'o'), W(r'\end{matrix}', 'c')]
        a = [W('a')]
        out = [scope('nested-matrix', a + sep + nest, 5 if deep else 4, pre=r'\begin{pmatrix}', post=r'\end{pmatrix}', table=0),
               scope('nested-array', a + sep + nest, 5 if deep else 4, pre=r'\begin{array}{r|l}', post=r'\end{array}', table=0),
               scope('nested-align', a + sep + nest, 5 if deep else 4, pre=r'\begin{align}', post=r'\end{align}', table=2),
               scope('nested-cases', a + sep + nest[:2], 5 if deep else 4, pre=r'\begin{cases}', post=r'\end{cases}', table=0)]
        flat = words('a', '&', r'\\', r'\hline ', r'\hdashline ', r'\\[2pt]', ' ')
        for i, spec in enumerate(['c', 'l|r', '|c|', ':l:', 'r||c', '|:c|:', 'cc|', 'lcr', ' | c | c ']):
            out.append(scope('array%d' % i, words('a', '&', r'\\', r'\hline '), (6 if deep else 5) if i < 2 else 4 + deep, pre=r'\begin{array}{%s}' % spec, post=r'\end{array}', noinv=True))
        for e in ('matrix', 'bmatrix', 'cases', 'rcases', 'dcases', 'aligned', 'gathered', 'align', 'gather', 'multline', 'equation'):
            out.append(scope(e, flat, 4 if deep else 3, pre=r'\begin{%s}' % e, post=r'\end{%s}' % e, noinv=True))
        out += [scope('sub', words('a', '&', r'\\', r'\hline '), 4 + deep, pre=r'\begin{subarray}{l}', post=r'\end{subarray}', noinv=True),
                scope('specs', words('c', 'l', 'r', '|', ':', ' ', '{', '}', 'x'), 4 + deep, pre=r'\begin{array}{', post=r'}a&b&c\\\hline d\end{array}', noinv=True),
                scope('inside', words('&', r'\\', 'a', r'\frac{', r'\left(', r'\right)', r'\sqrt{', '}', r'\text{'), 4 if deep else 3, pre=r'\begin{matrix}', post=r'\end{matrix}', noinv=True),
                scope('separators', words(r'\\', r'\cr ', r'\newline ', r'\\*', '[1em]', '[a]', ' ', '*', '&'), 4 if deep else 3, pre=r'\begin{matrix}a', post=r'\end{matrix}', noinv=True),
                scope('outside', words('&', r'\\', r'\hline ', 'a', '{', '}'), 4, noinv=True),
                scope('macros', words(r'\s ', r'\t ', r'\u{a}', 'b', '&', r'\v{', '}', r'\\'), 4 if deep else 3, pre=r'\def\s{&}\def\t{\\}\def\u#1{#1&#1\\\hline}\def\v#1{\begin{array}{c|}#1\end{array}}\begin{array}{|r|l}', post=r'\end{array}', noinv=True)]
        return out

    def forms(self):
        """Every environment with lines, separators and numbers of rows and columns of all kinds."""
        out = []
        bodies = [r'\hline a&b\\c', r'a&b\\\hline c', r'a\\\hline', r'\hline\hline a\\b', r'a\\\hline\hline b', r'\hdashline a&b\\\hdashline c&d', r'\hline a&b\\\hdashline c&d\\\hline', r'\hline a\\\\\hline', r'a&b\hline', r'a\hline&b', r'{\hline a}', r'a\\ \hline%x' + '\n b', r'\hline', '', 'a', r'a\\', r'\\', '&', 'a&b&c&d&e', r'&\\&', r'a\\b\\c\\d\\e', r'a&\\b\\&c\\',
                  r'a\\[3pt]b\\[-1em]\hline c', r'a\\*b', r'a\cr b\newline c', r'\text{a}&\text{b}\\c', r'{a}&{b&c}\\{d\\e}', r'a&\frac{b&c}{d}', r'a&\begin{matrix}b&c\\\hline d\end{matrix}\\e', r'\left(a&b\right)', r'\hline{}a', r'\hdashline\hline a', r'\hline\hdashline a', r'\hline%a' + '\n' + r'\hline a', r'\nonumber a&b\\c', r'a\label{x}&b\tag{y}\\c', r'\rm a&b\\c', r'\color{red}a&b\\c', r'a\over b&c\\d', r'\displaystyle a&b']
        for e in gen.ENVS:
            for spec in (['{c}', '{l|r}', '{|c|c|}', '{:c:r}', '{||c}', '{cc||}', '{ }', '{|}', '{r:|:l}', '{cx}', 'c', '']if 'array' in e else ['']):
                for b in bodies:
                    t = r'\begin{%s}%s%s\end{%s}' % (e, spec, b, e)
                    out.append(session(local(t), local(r'x^{%s}' % t, False)) if zlib.crc32(t.encode()) % 3 == 0 else session(local(t)))
        return out

    def fixed(self):
        return self.forms() + [session(s) for s in (r'\begin{matrix}{a & b}\end{matrix}', r'\begin{align}{a \\ b}\\c\end{align}', r'\begin{align}\frac{a\\b}{c}\end{align}', r'\begin{align}\left(a & b\right)\end{align}', r'\begin{array}{c|c}\hline a&b\\\hline\end{array}',
                                     r'\begin{array}{cc}a&b\\\hdashline c&d\\\hline\hline e\end{array}', r'\begin{array}{|l|}a&b&c\end{array}', r'\begin{matrix}\hline a\end{matrix}', r'\begin{cases}a&b\\c&d&e\end{cases}', r'\begin{array}{c}a\over b\\c\end{array}',
                                     r'\begin{matrix}\color{red}a&b\\c\end{matrix}', r'\begin{multline}a\\b\\c\\d\end{multline}', r'\begin{multline}a\end{multline}', r'\begin{darray}{l:r}a&b\end{darray}', r'\begin{gathered}a\\b\end{gathered}', r'\substack{a\\b\\c}',
                                     r'\begin{array}{c}\begin{array}{|r}a\\\hline b\end{array}\\\hline c\end{array}', r'\begin{array}{}a\end{array}', r'\begin{array}{|}a\end{array}', r'\begin{array}c a\end{array}', r'\begin{aligned}&a\\&&b\end{aligned}', r'\begin{matrix}a\\\end{matrix}')]


class C14(Prop):
    view = Spacing()
    focus = {'switch': 2, 'wrap': 4, 'big': 4, 'fence': 2, 'bigop': 3, 'define': 1, 'kind': 8, 'color': 1, 'space': 1}
    nest = dict(probes=['=', 'a+', '+a', ',', '-', '(', ')', r'\sum ', 'a=b', r'\ldots ', r'\leq ', '|', r'\mid '])
    nests = (8000, 40000)
    chars = True
    sweep = (r'a\0 b', r'=\0=', r'+\0{x}+', (r'x^{a\0 b,\0}', False), r'\0', r'(\0)', r'\0\0', r'\sum\0,\0')

    def scopes(self, deep):
        t = [W(r'\rm ', 't'), W(r'\,', 't')]
        x = words('a', '+', '=', ',', '(', ')', r'\sum ', r'\ldots ')
        ops = words('a', '+', '=', ',', '(', ')', r'\sin ', r'\sum ', r'\cdots ', '-', '!')
        grp = words('a', '+', '=', '{', '}', r'\left(', r'\right)', r'\frac{+}{=}', '^', '|')
        cls = words(r'\mathrel{x}', r'\mathbin{x}', r'\mathop{x}', r'\mathopen{x}', r'\mathclose{x}', r'\mathpunct{x}', r'\mathinner{x}', r'\mathord{+}', '+', '=', 'a')
        sty = words('a', '+', '=', ',', r'\scriptstyle ', r'\displaystyle ', '^{', '}', '{', r'\sum ')
        kinds = words(r'\leq ', r'\times ', r'\colon ', ':', r'\mid ', r'\|', '|', r'\langle ', r'\rangle ', r'\bigl(', r'\bigr)', r'\big|', r'\not=')
        misc = words('+', '=', r'\,', r'\quad ', '~', r'\text{t}', r'\label', 'a', r'\rm ', r'\nonumber ', '/', r'\not', r'\phantom{=}', "'")
        mac = words('+', '=', 'a', r'\p ', r'\q ', r'\e ', r'\r{+}', r'\r a', '-')
        cells = words('+', '=', 'a', '&', r'\\', '(', ',')
        return [scope('transparent', [W(w['text'], 'op') for w in ops[:5]] + t, 6 if deep else 5),
                scope('pairs', ops, 4 if deep else 3, block=[True, False], noinv=True),
                scope('groups', grp, 4 if deep else 3, noinv=True),
                scope('long', x[:5], 6 if deep else 5, noinv=True),
                scope('classes', cls, 4 if deep else 3, noinv=True),
                scope('styles', sty, 4 if deep else 3, block=[True, False], noinv=True),
                scope('kinds', kinds + words('a', '+'), 3, noinv=True),
                scope('misc', misc, 4 if deep else 3, noinv=True),
                scope('macros', mac, 4 if deep else 3, pre=r'\def\p{+}\def\q{={}}\def\e{}\def\r#1{#1b}', noinv=True),
                scope('cells', cells, 5 if deep else 4, pre=r'\begin{matrix}', post=r'\end{matrix}', noinv=True),
                scope('cells-align', cells, 4 + deep, pre=r'\begin{align*}', post=r'\end{align*}', noinv=True)]

    NEXT = ('a', '+', '=', ',', '(', ')', r'\log ', r'\ldots ', '[', r'\sum ', '|', '!', ':', '*', r'\colon ', '{}', "'", r'\,')
    PLAIN = {'letter', 'upletter', 'rel', 'bin', 'fbin', 'frel', 'op', 'flop', 'ord', 'pop', 'popl', 'open', 'close', 'fopen', 'fclose', 'punct', 'fpunct', 'digit', 'space', 'nbsp'}

    def around(self, x, n=8):
        return ''.join('{%s%s}{%s%s}' % (x, n, n, x) for n in self.NEXT[:n])

    def swept(self):
        """Every command and every character next to an atom of every class, at both sizes."""
        out = super().swept()
        for c, n, k in gen.SYMBOLS:
            for i in (0,) if k in self.PLAIN else (0, 1, 2, 4):
                x = c + '{x}' * i
                out.append(session(local(self.around(x)), config=self.sweep_config))
                if zlib.crc32((n + str(i)).encode()) % (4 if i else 7 if k in ('letter', 'upletter', 'rel', 'bin', 'digit') else 1) == 0:
                    out.append(session(local('x^{' + self.around(x) + '}', False), config=self.sweep_config))
        return out

    def things(self):
        """Combinations which are one thing for what is next to them."""
        out = [b + d for b in gen.all_names('big') for d in (r'(', r'\langle ', ']', '|', r'\uparrow ', '/')]
        out += [c + '{%s}' % x for c in gen.all_names('mathclass') for x in ('x', '=', 'ab', '', r'\sum ')]
        out += [r'\xrightarrow[=]{+}', r'\xrightarrow{+=}', r'\not=', r'\not<', r'\not a', r'\left(=\right)', r'\left(=\middle|+\right]', r'\left.+\right.', r'\operatorname{=}', r'\operatorname*{a}', r'\sideset{_a}{^b}\sum ', r'\prescript{a}{b}{=}', r'\prescript{}{}{\sum}',
                r'\overset{a}{=}', r'\underset{a}{+}', r'\stackrel{a}{(}', r'\overset{=}{a}', r'\overbrace{=}', r'\overbrace{+}^=', r'\underbrace{a}_{+}', r'\hat{=}', r'\overline{+}', r'\underline{=}', r'{=}', r'{+}', r'{}', r'{(}', r'{,}', r'{\sum}', r'{\bf =}', r'\mathbf{=}', r'\mathrm{+}',
                r'\mathbf=', r'\mathbf +', r'\mathrm{a=}', r'\text{=}', r'\boxed{=}', r'\cancel{+}', r'\phantom{=}', r'\vphantom{+}', r'\smash{=}', r'\mathllap{=}', r'\mathstrut ', r'\textcolor{red}{=}', r'\color{red}=', r'\color{red}', r'\cramped{=}', r'\frac+=', r'\binom+=', r'{+\over=}', r'\sqrt=', r'\sqrt[=]{+}',
                r'\mathchoice{=}{+}{,}{(}', r'\mathchoice====', r'\substack{=\\+}', r'\begin{matrix}=&+\end{matrix}', r'\begin{cases}=\end{cases}', r'\begin{rcases}+\end{rcases}', r'\begin{aligned}=&+\end{aligned}', r'\begin{array}{|c}+=\end{array}', r'\bmod ', r'\pmod{+}', r'\mod=', r'\pod+', r'\set{=}', r'\Set{=|+}', r'\bra=', r'\ket+', r'\braket{a|b}', r'\Braket{a|=}',
                r'\displaystyle ', r'\scriptstyle ', r'\rm ', r'\quad ', r'\kern1pt', r'\hspace{0em}', '~', r'\label{q}', r'\relax ', r'\sum\limits ', r'\sum\nolimits_a', r'\sum_a^b', r'\int\limits ', '=_a', '+^b', "='", ',_a', '(^b', ')_a^b', '=_+^=', r'\ldots_a', r'\sin^2', r'\lim_a', r'\mathrel{x}_a', r'\mathbin{y}^2', r'\raisebox{1pt}{=}', r'\genfrac(){}{}{+}{=}', r'\genfrac{}{}{}{}{+}{=}']
        return out

    def fixed(self):
        import gen
        out = []
        for x in self.things():
            out.append(session(local(self.around(x, 18))))
            out.append(session(local(r'\bf ' + self.around(x))))
            out.append(session(local('x^{' + self.around(x) + '}', False)))
            out.append(session(local(r'\begin{matrix}' + '&'.join(n + x + '&' + x + n for n in self.NEXT[:8]) + r'\end{matrix}')))
        for b in ('#1=', '=#1', '#1', '#1+', '+#1', '(#1', '=a', 'a=', '{=(}', '{=}', '{a+}', '=(', ')=', ',#1,', r'\sum#1', r'#1\sum', '{#1}=', '{}#1', r'\rm=', r'\color{red}=#1', '#1^2', '=^#1', r'\frac{#1}{=}', r'\mathrel{#1}', r'\left(#1\right)', '', ' ', '{}', '=', '+', ',', '(', ')', '[', ']', '|', r'\log', r'\ldots', r'\colon', r'\,', r'\not=', r'\not', r'\text{a}', r'\bigl(', r'\mathbin', r'\mathop', r'\limits', "'", '-1', '1', r'\mathord=', r'\mathord{=}', r'\operatorname{=}', r'\def\t{=}\t', r'\begin{matrix}=\end{matrix}'):
            a = '{+}' if '#1' in b else ''
            for a in ('{+}', '=', '{}', r'{a=}', 'b') if '#1' in b else ('',):
                out.append(session(local(self.around(r'\s' + a if a[:1] != 'b' else r'\s b' if a else r'\s ')), macros=[['s', b]]))
                out.append(session(local((r'\def\s#1{%s}' if a else r'\def\s{%s}') % b + self.around(r'\s ' + a))))
                out.append(session(local((r'\def\s#1{%s}' if a else r'\def\s{%s}') % b + r'\def\t{\s %s}' % a + self.around(r'\t '))))
                if not a:
                    out.append(session(local(r'\let\s=%s ' % b + self.around(r'\s '))))
        rel = [n for k in ('rel', 'bin', 'punct', 'inner', 'op', 'open', 'close', 'pop', 'popl', 'flop') for n in gen.BYKIND.get(k, [])]
        for i in range(0, len(rel), 6):
            ns = rel[i:i + 6]
            n = lambda x: '\\' + x + (' ' if x[-1].isalpha() else '')
            out.append(session(''.join('a' + n(x) + 'b' for x in ns), ''.join(n(x) + '+' for x in ns) + 'c', '{' + '}{'.join(n(x) + ' ' + n(x) for x in ns) + '}', {'op': 'global', 'src': 'x^{' + ''.join('a' + n(x) + 'b' for x in ns) + '}', 'block': False}))
        return out


# ------------------------------------------------------------------------------------------------ C19, C20, C22

class C19(Prop):
    view = Unknown()
    focus = {'define': 3, 'stray': .5}
    nest = dict(probes=['x', r'\foo ', r'\foo '], config=[{}, {'ignore-unknown-commands': True}])
    sweep = (r'\0', r'\1x', r'\text{\1x }', r'\1*')
    nops = 2

    def scopes(self, deep):
        unk = [W(r'\foo ', 'unk', 'foo'), W(r'\Bar ', 'unk', 'Bar'), W(r'\1', 'unk', '1')]
        ctx = words('a', '{', '}', r'\frac', '^', '+')
        deff = words(r'\newcommand{\a}{\foo x}', r'\a ', r'\b{\foo}', r'\def\foo{z}', r'\foo ', r'\c ', '{', '}', r'\let\d=')
        env = [W(r'\bar', 'x')]
        out = [scope('rejected', unk + words('a', '+', '^b', '{c}'), 3 + deep),
               scope('shown', unk + words('a', '+', '^b', '{c}'), 3 + deep, config={'ignore-unknown-commands': True})]
        for ign in (False, True):
            c = {'ignore-unknown-commands': ign}
            p = 'shown-' if ign else 'rejected-'
            out += [scope(p + 'places', unk[:1] + ctx, 4 + deep, config=c, noinv=True),
                    scope(p + 'defs', deff, 3 + deep, pre=r'\def\b#1{y}\def\c{\a}', config=c, noinv=True),
                    scope(p + 'discarded', words(r'\b{', r'\foo ', r'\newcommand\foo{z}', r'\w', '}', '{', r'\q ', r'\def\q{v}'), 5 if deep else 4, pre=r'\def\b#1{y}\def\w#1#2{#2\q}', config=c, noinv=True),
                    scope(p + 'text', words(r'\foo ', 'a', r'\textbf{', '}', r'\&', r'\<'), 3 + deep, pre=r'\text{', post='}', config=c, noinv=True),
                    scope(p + 'args', words(r'\foo ', r'\left', r'\color', r'\sqrt[', ']', r'\operatorname', r'\begin{array}', '{', '}', 'c', r'\kern'), 3, config=c, noinv=True),
                    scope(p + 'names', words(r'\<', r'\&', '\\"', r'\>', r'\foo*', r'\é', r'\\', '\\', r'\@', r'\f1'), 2 + deep, config=c, noinv=True),
                    scope(p + 'calls', words(r'\foo ', r'\gdef\foo{x}', r'\newcommand\foo{y}', r'\gdef\q{\foo}', r'\q ', 'a'), 2, 2, config=c, kinds=['global'], noinv=True),
                    scope(p + 'lim', words(r'\foo ', '+', '=', '^', '_', r'\limits ', r'\sum ', "'", '('), 3 + deep, config=c, noinv=True)]
        return out

    def fixed(self):
        return [session(s, config={'ignore-unknown-commands': i}) for i in (False, True) for s in (r'\<', r'\foo', r'a\foo b', r'\newcommand{\a}{\foo}x', r'\newcommand{\a}{\foo}\a', r'\frac\foo\bar', r'x^\foo', r'\text{\foo}', r'\def\d#1{}\d{\foo}x', r'\let\a\foo x', r'\operatorname{\foo}',
                                     r'\left\foo x\right)', r'\begin{array}{\foo}a\end{array}', r'\foo{a}{b}', r'\foo^2_3', '\\', r'\foo\label{x}', r'\begin{matrix}\foo&\foo\end{matrix}')]


class C20(Prop):
    view = Skeleton()
    focus = {'space': .3}
    sweep = ('\\0  {x} %c\n {y} {z}', r'\1{x}{y}{z}', '\\1%\n a', r'\0a', r'\text{\1 a }', '\\1\n\n[ 2 ] x')

    def scopes(self, deep):
        sp = [W(' ', 'sp'), W('\n', 'sp'), W('%c\n', 'sp'), W('% } \\foo\n  ', 'sp')]
        sp2 = [W('\t ', 'sp'), W('%\n%$\n', 'sp')]
        base = words('a', '+', '^', '_', '{', '}', r'\frac')
        cmds = words(r'\sum', r'\limits', r'\left(', r'\right)', r'\sqrt', '[', ']', '1')
        tab = words('a', '&', r'\\', r'\hline', '1', '2')
        defs = words(r'\newcommand', r'{\a}', '[1]', '{#1b}', r'\a', 'x')
        let = words(r'\let', r'\b', '=', 'c', r'\gdef', r'\global', '{x}')
        len_ = words(r'\kern', '1pt', '{2em}', 'x', r'\color{red}')
        env = words(r'\begin{array}', r'{c|}', 'a', r'\end{array}', '&')
        num = words('1', '2', '.', 'a', 'b', '+', '^')
        fonts = words(r'\mathrm', '{', '}', 'a', 'b', r'\rm', r'\operatorname', r'\text{ a }')
        big = words(r'\bigl', '(', r'\Big', '|', r'\not', '=', r'\mathrel', 'x')
        import re
        out = []
        for ws in (base, cmds, tab, defs, let, len_, env, num, fonts, big):
            for w in ws:
                if re.search(r'\\[A-Za-z]+$', w['text']):
                    w['k'] = 'cw'
        for nm, ws, n, kw in [('math', base, 4, {}), ('cmds', cmds, 4, {}), ('table', tab, 4, {'pre': r'\begin{matrix}', 'post': r'\end{matrix}'}), ('defs', defs, 4, {}), ('let', let, 3, {}), ('lengths', len_, 4, {}), ('env', env, 4, {}),
                              ('numbers', num, 3, {}), ('fonts', fonts, 3, {}), ('big', big, 3, {})]:
            out.append(scope(nm, sp[:2] + sp[2:3 + (nm in ('math', 'numbers'))] + ws, n + deep if len(ws) < 9 else n, **kw))
        out.append(scope('tabs', sp2 + base[:5] + [W(r'\,')], 4 + deep))
        out.append(scope('matters', words(' ', '%\n', r'\text{', '}', 'a', r'\alpha', r'\ ', '~', r'\,', 'b'), 4 if deep else 3, noinv=True))
        return out

    def key(self, sc, ops):
        if len(ops) != 1 or sc.get('noinv'):
            return None
        src, last, sep = '', '', False
        for w in ops[0]['ws']:
            if w['k'] == 'sp':
                sep = True
            else:
                src += (' ' if sep and last == 'cw' and w['text'][0].isalpha() else '') + w['text']
                last, sep = 'cw' if w['k'] == 'cw' or last == 'cw' and not sep and w['text'].isalpha() else w['k'], False
        return (sc['id'], src, ops[0]['block'])

    def pairs(self, rnd, n):
        import gen, re
        out = []
        g = gen.Gen(rnd, stray=.05)
        inside = list(gen.nested(rnd, 2 * n, ['x', '+', '12', r'\alpha ', '']))
        for i in range(2 * n):
            src = g.snippet(3) if i % 2 else inside[i]
            if '%' in src or r'\text' in src or r'\tag' in src:
                continue
            toks = re.findall(r'\\[A-Za-z]+\*?|\\.|[^\\]', src, re.S)
            blk = rnd.random() < .5
            out.append((i, {'config': {}, 'macros': [], 'ops': [{'op': 'global', 'src': src, 'block': blk}]}))
            for _ in range(2):
                s2 = ''.join(t + (rnd.choice([' ', '\n', '%x}\n', '%\\\n\t', '  ']) if rnd.random() < .4 else '') for t in toks)
                out.append((i, {'config': {}, 'macros': [], 'ops': [{'op': 'global', 'src': s2, 'block': blk}]}))
        return out

    GAPS = (r"\let\a=' x\a", r'\let\a=b\a x', r'\let\a{\a x}', r'\global\let\a=[\a x', r'\newcommand{\a}[1]{x#1}\a yz', r'\renewcommand\pi[2]{#2x#1}\pi yz', r'\providecommand{\a}{x}\a y', r'\def\a#1{x#1}\a yz', r'\global\gdef\a#1#2{#2x#1}\a yz',
            r'\newcommand\a x\a y', r'\newcommand{\a}{x}\a_2', r"a'^2_3", r'\begin{array}{c|r}a&b\\\hline c\end{array}', r'\begin{align}a&b\\c\end{align}', r'\genfrac(]{1pt}{2}ab', r'\genfrac{}{}{}{}{a}{b}', r'\sqrt[3]{x}y', r'\xrightarrow[a]{b}c', r'\sideset{_a}{^b}\sum_c^d',
            r'\prescript{a}{b}{c}d', r'\kern1pt x', r'\mkern-1.5mu x', r'\hspace{1em}x', r'\color{red}x', r'\textcolor{red}{x}y', r'\operatorname{ab}c', r'\operatorname*{ab}_c', r'\raisebox{1pt}{ab}c', r'\text{a}b', r'\mathbf{ab}c', r'\rm ab', r'\bigl(a\bigr)', r'\Big|a', r'\left(a\middle|b\right)^2', r'\left.a\right]',
            r'\sum\limits_a^b c', r'\lim\nolimits_a', r'\mathop{ab}\limits^c', r'\not=a', r'\mathrel{ab}c', r'a\over b', r'{a\choose b}', r'{a\displaystyle b}', r'\mathchoice abcd', r'\substack{a\\b}c', r'\begin{matrix}\hline a\\[1em]b\\\hline\end{matrix}', r'\tag{1}', r'\begin{gather}a\tag{1}\\b\label{q}\end{gather}\eqref{q}', r'\overset a b c', r'\cfrac[l]ab', r'\binom ab', r'\dots+', r'\pmod3', r'x_{\frac12}', r'\set{a|b}', '12.3,4', r'\smash[b]{x}y')

    def fixed(self):
        import re, gen
        out = []
        for s in [*self.GAPS, *(gen.fill(random.Random(1), c, gen.forever(lambda: 'x'), b) for c in gen.CONSTRUCTS for b in (0, 1))]:
            t = re.findall(r'(?<=begin)\{\w+\*?\}|(?<=end)\{\w+\*?\}|\\[A-Za-z]+\*? ?|\\.|[^\\]', s, re.S)
            for i in range(len(t) + 1):
                for sp in (' ', '%}\n', '\n\t%x\\\n'):
                    out.append(session(''.join(t[:i]) + sp + ''.join(t[i:])))
            for sp in (' ', '%{\n', ' %\n'):
                out.append(session(sp.join(t)))
        for c in '\x00\x01\x08\t\x0b\x0c\r\x1a\x1c\x7f\x85\u1680\u2028\u2029\u3000\u200b\ufeff\u2003\xa0%$#&{}\\^~':     # what ends a comment, and what is white space
            out.append(session('a%x' + c + 'b\n c', 'a%' + c, '%%%s\r\nb' % c, r'\text{a%' + c + '\n b}', r'\begin%' + c + 'x\n{matrix}a\\end{matrix}'))
            if c in '\t\x0c\r\x7f\x85\u1680\u2028\u2029\u3000\u200b\ufeff\u2003\xa0':       # (the other control characters are none of XML)
                out.append(session('a' + c + 'b', 'x^' + c + '2', r'\alpha' + c + 'b', r'\frac' + c + '{a}' + c + 'b', r'\text{a' + c + ' ' + c + 'b}', r'\text' + c + '{a}', '%' + c + '\n' + c + 'b', r'\begin' + c + '{matrix}a\\end{matrix}', r'\kern1' + c + 'pt'))
        return out + [session(s) for s in ('a%b\nc', 'a%', '%', '%\n', 'a%}\nb', '% \\begin{x}\na', '\\begin%a\n %b\n{matrix}a\\end%', '\\begin%', '\\begin %a\nb', '\\begin{matrix}a\\end%a\n%b\n \t{matrix}b', '\\text{\\begin%a\n{matrix}}', 'a % b % c\n d', 'x ^ 2 _ 3', r'\frac 1 2', r'\frac{ a } { b }', r'\sqrt [ 3 ] { x }', r'\left ( a \right )', r'\begin {matrix} a & b \\ c \end {matrix}', '\\alpha\nx', 'a \t\r\n b',
                                     r'\kern 1pt x', r'\kern1pt x', r'\color {red} x', r'\begin{array} { c | c } a & b \end{array}', r'\newcommand { \a } [1] { # 1 }', r'\def \a #1 {x}', r'\def\a #1#2{x}', "a ' ' ^ 2", r'\sum \limits _ a', r'\text {a}', r'\text %c' + '\n{b}', r'\mathbf  a', r'1 2 . 3')]


class C22(Prop):
    view = Text()
    focus = {'text': 20, 'accent': 2, 'define': 1}
    nest = dict(probes=['a', 'b c', ' ', 'é ', '1', r'\it d', r'\&', '`', '<', r'\large q'], constructs=gen.TEXTS, around=['§', '{§}', r'\textbf{§}', r'a\textit{b§}c', r'\raisebox{2pt}{§}', r'\large §', r'\texttt{\textbf{§}}', r'\emph{\emph{§}}'], pre=r'x\text{', post='}z')
    nests = (5000, 30000)
    chars = True
    sweep = (r'\text{a\0 b}c', r'\text{\1e}', r'\text\0 b', r'\textbf{\0}d', r'\text{\0{i} }', r'\text{\textbf{\1}c}', r'\text{\textbf\1 x}', r'\textit{a\textbf \0b}', r'\text{\emph{a\0}\0}', r'\operatorname{a\0b}', r'\text{\it \0c}', r'\text{{\0}d}', r"\text{\'\0}", r'\raisebox{1pt}{\0 a}', r'\mathbf{\0}', r'\tag{\0}',
             r'\text{\raisebox{1pt}\0 a}', r'\text{\textbf{a}\0}', r'\text{\text{\0}}', r'\texttt{\0 \0}', r'\text{\0', r'\mathrm{a\0b}')

    def scopes(self, deep):
        T = lambda t, v=None: W(t, 'tx', t if v is None else v)
        push, pop = lambda t, v: W(t, 'push', v), W('}', 'pop')
        chars = [T('a'), W(' ', 'ws', '\u00a0'), T('1'), T(r'\&', '&'), T('<'), T('é')]
        styl = [T('a'), T('b'), push(r'\textbf{', 'bf'), push(r'\textit{', 'it'), push('{', 'same'), pop, W(r'\bf ', 'set', 'bf'), W(r'\tt ', 'set', 'tt')]
        acc = words(r"\'", r'\"', r'\^', r'\c ', 'e', 'i', r'\i ', '{', '}', r'\ss ', ' ')
        bad = words('a', '$', '^', '_', '&', '#1', r'\alpha ', r'\foo ', '{', '}', r'\\')
        mode = words(r'\text{', '}', 'a', ' ', '+', r'\alpha ', '^2', '{', r'\mathbf{')
        size = words(r'\large ', r'\small ', r'\textrm{', 'a', '{', '}', r'\raisebox{2pt}{', r'\underline{', ' ')
        syms = words(r'\%', r'\#', r'\_', r'\{', r'\}', r'\$', '~', r'\ ', "'", '``', '--', '"', '\\,')
        return [scope('chars', chars + [push('{', 'same'), pop], 4 + deep, pre=r'\text{', post='}', text='', before='', after=''),
                scope('styles', styl, 4 + deep, pre=r'x\text{', post='}y', text='', before='x', after='y'),
                scope('accents', acc, 4 if deep else 3, pre=r'\text{', post='}', noinv=True),
                scope('bad', bad, 4 if deep else 3, pre=r'\text{', post='}', noinv=True),
                scope('bad-arg', bad, 3, pre=r'\textbf', noinv=True),
                scope('mode', mode, 5 if deep else 4, noinv=True),
                scope('vary-bare', words(r'\textbf', r'\textit', r'\emph', r'\texttt', r'\textsf', r'\underline', r'\raisebox{1em}', r'\sout', 'a', '{', '}'), 4 if deep else 3, pre=r'\text{', post='b}', noinv=True),
                scope('sizes', size, 4 if deep else 3, pre=r'\text{', post='}z', noinv=True),
                scope('symbols', syms, 3 + deep if deep else 2, pre=r'\mbox{', post='}', noinv=True),
                scope('commands', words(r'\textbf', r'\text', r'\textit', r'\emph', r'\texttt', r'\textsc', r'\textsf', 'a', '{b c}', ' ', '{'), 3, post='z', noinv=True),
                scope('macros', words(r'\m ', r'\n{', 'a', '}', ' ', r'\textit{', r'\o '), 4, pre=r'\def\m{b c}\def\n#1{#1\textbf{#1}}\def\o{}\text{', post='}', noinv=True),
                scope('comments', words('a', ' ', '%c\n', '\n', '% }\n', '{', '}', r'\ss'), 4 if deep else 3, pre=r'\text{', post='}', noinv=True),
                scope('in-table', words(r'\text{', '}', '&', r'\\', 'a', ' ', '^b'), 4, pre=r'\begin{matrix}', post=r'\end{matrix}', noinv=True)]

    def fixed(self):
        import itertools
        w = [r'\textbf{§}', r'\textit{§}', r'\emph{§}', r'\texttt{§}', r'\underline{§}', r'\raisebox{2pt}{§}', r'\sout{§}', r'{\large §}', r'{\bf §}', '{§}', r'\textnormal{§}', r'\textsf §', r'\it §']
        def fold(ws, x='x'):
            for i, c in enumerate(reversed(ws)):
                x = c.replace('§', x + ('yzuv'[i] if i else ''))
            return x
        return [session('a' + c.replace('§', fold(ws, "é" if len(ws) < 3 else 'x')) + 'b') for n in (1, 2, 3) for ws in itertools.product(w, repeat=n) for c in ([r'\text{§w}'] if n > 1 else [r'\text{§w}', r'\textbf{§w}', r'\textit{§w}', r'\emph{§}', r'\mbox{w§}', r'\text{$§}'])] + [session(s) for s in (r'\text{a b}c', r'\text{ a  b }', r'\textbf{a\textit{b}c}', r'\text{a$b$}', r"\text{\'e\`a\^o\"u\~n\c c\v s\=a\.z\u g\H o\r a}", r'\text{\'{\i}\"\i}', r'\text{\ss\ae\o\l}', r'\text{a\&b\%c\#d\_e\{f\}}', r'\text{a', r'\text', r'\text a b', r'\text\alpha', r'\text{\alpha}', r'\textbf{\text{a}b}c',
                                     r'\text{\bf a\it b}c', r'\text{{\bf a}b}', r'\text{\textbf e}', r"\text{\'\textbf e}", r'\text{a^b}', r'\text{a&b}', r'\text{\large a{\small b}c}', r'\mathbf{\text{a}b}', r'x^\text{a b}', r'\operatorname{a b}', r'\text{<b>&amp;"}', r'\text{😀é}', r'\text{~}', r"\text{``a''}", r'\text{\foo}', r'\text{}', r'\text{{}}', r'\text{}^2', r'\hbox{a}\mbox{b}', r'\text{a\\b}', r'\text{#1}', r'\text{\ }')]


BIGS = [(r'\big', '1.2em'), (r'\Big', '1.623em'), (r'\bigg', '2.047em'), (r'\Bigg', '2.470em')]


class C23(Prop):
    view = Sizes()
    focus = {'fence': 10, 'big': 10, 'accent': 6, 'bigop': 4, 'kind': 6, 'wrap': 3}
    nest = dict(probes=['(', '|', r'\uparrow ', r'\to ', r'\sum ', r'\langle ', '/', ']', r'\bigl(', r'\hat x', '=', r'\int ', r'\Vert '], around=['§', r'\left|§\right|', r'x_{§}', r'{\textstyle §}', r'\widehat{§}', r'\overset{§}{§}', r'\mathrel{§}', r'\begin{vmatrix}§\end{vmatrix}', r'\def\w#1{#1}\w{§}', r'\overbrace{§}^{§}'])
    nests = (5000, 30000)
    chars = True
    sweep = (r'\0', r'\left\0 a\right\0 b', r'\left(a\middle\0 b\right.', r'\bigl\0 a\Biggr\0 b', r'\big\0 \Bigm\0', r'x^\0 y', r'\0{x}', r'\0{x}{y}', r'\overset\0{x}', r'\overset{x}\0', r'\underset x{\0}', r'\mathrel\0 x', r'\mathop{\0}_a', r'\mathord\0', r'\not\0', r'\overbrace\0', r'\overbrace{\0}^a', r'\hat\0', r'\widehat{\0}', r'\overrightarrow{\0}', (r'\0\limits_a^b', False), r'\textstyle\0_a',
             r'\0\mathchoice((((', r'\begin{matrix}\0&(\0\end{matrix}', r'\frac\0\0', r'\sqrt\0', r'\genfrac\0\0{}{}ab', r'\genfrac{(}{\0}{}{}ab', r'\slashed\0', r'\mathbin\0', r'(\0)', r'|\0|', r'\0=\0', r'\xrightarrow\0', r'\phantom\0', r'{\color{red}\0}', r'\operatorname{\0}', r'\prescript{\0}{}\0', r'\mathopen\0\mathclose\0\mathpunct\0\mathinner\0', r'\mathbf\0', r'\sideset{_\0}{}\sum')

    def scopes(self, deep):
        d = lambda t, a='', b='': W(t, 'x', '%s|%s|%s' % (a, b, b))
        n = lambda t: W(t, 'x', '-')
        push, pop = lambda t, v='-': W(t, 'push', v), lambda t='}', v='-': W(t, 'pop', v)
        marks = [['mo', ['stretchy', 'minsize', 'maxsize']]]
        fences = [d('(', 'false'), d('|', 'false'), W(r'\left(', 'env', '||'), W(r'\middle|', 'x', 'true||'), pop(r'\right.'), W(r'\left|', 'env', '||'), d(r'\uparrow ', 'false'), push('{'), pop()]
        bigs = [W(b + c + e, 'x', '%s|%s|%s' % ('true' if e in '|/' else '', z, z)) for b, z in BIGS[:2] for c in ('l', 'r', '') for e in ('(', '|')] + [d('(', 'false'), push('{}^{'), pop()]
        bigs2 = [W(b + c + e, 'x', '%s|%s|%s' % ('true' if e in '|/' else '', z, z)) for b, z in BIGS[2:] for c in ('m', '') for e in (r']', '/')] + [n("a"), push(r'\sqrt{'), pop()]
        acc = [n('x'), push(r'\hat{', 'false||'), push(r'\widehat{', 'true||'), push(r'\overrightarrow{', '||'), push(r'\overbrace{', '||'), push(r'\vec{', 'false||'), d('(', 'false'), push('{'), pop()]
        forced = words('(', '|', r'\to ', r'\sum ', r'\mathrel', r'\mathop', r'\mathord', r'\mathopen', '{', '}', '^')
        return [scope('fences', fences, 4 + deep, marks=marks),
                scope('bigs', bigs, 3, marks=marks),
                scope('bigs2', bigs2, 3, marks=marks),
                scope('accents', acc, 4 + deep, marks=marks),
                scope('delims', words(r'\left', r'\right', r'\middle', r'\bigl', '(', '|', '.', r'\langle ', 'a', '{', '}'), 4 + deep, noinv=True),
                scope('forced', forced, 4 if deep else 3, noinv=True),
                scope('around', words(r'\uparrow ', '/', '|', r'\not', '=', r'\left.', r'\right)', '&', "'", '_'), 4 if deep else 3, noinv=True),
                scope('macros', words(r'\l', r'\m', r'\n{', '(', '|', '}', r'\left', r'\right', r'\big'), 4 if deep else 3, pre=r'\def\l{\left(}\def\m{|}\def\n#1{\bigl#1\left#1#1\right#1}', noinv=True),
                scope('braces', words(r'\overbrace', r'\underbrace', r'\overset', r'\underset', r'\to ', '{', '}', '=', '(', '_'), 4 if deep else 3, noinv=True),
                scope('ops', words(r'\sum ', r'\int ', r'\mathop{', r'\limits ', '_a', r'\textstyle ', '}', r'\bigcup ', '{', '|'), 4 if deep else 3, block=[True, False], noinv=True)]

    def fixed(self):
        import itertools
        ds = ['(', ')', '[', ']', '|', '/', '.', '<', '>', r'\{', r'\}', r'\|', r'\langle', r'\rangle', r'\lfloor', r'\rceil', r'\uparrow', r'\Downarrow', r'\updownarrow', r'\vert', r'\lVert', r'\backslash', r'\lmoustache', r'\rgroup', r'\ulcorner', r'\llbracket', '↑', '⟨', '‖', 'a', '=', '{', r'\foo', r'\relax', ' (', '{(}']
        out = []
        for a, b in itertools.product(ds, ds):
            if zlib.crc32((a + b).encode()) % 2 == 0:
                out.append(session(local(r'\left%s x\middle%s y\right%s z' % (a, b, a)), local(r'\bigl%s x\Bigr%s \biggm%s y\Bigg%s' % (a, b, a, b)), local(r'\genfrac{%s}{%s}{0pt}{}ab' % (a.replace('{', r'\lbrace') if a == '{' else a, b)), local(r'%s %s' % (a, b))))
        for a, b, c in itertools.product(('', r'\mathrel', r'\mathop', r'\mathord', r'\mathopen', r'\mathbin', r'\not', r'\hat', r'\overset x', r'\mathbf', r'\phantom', r'x^', r'\left(', r'\big', r'\textstyle', r'\overrightarrow', r'\color{red}', r'\cancel', r'\slashed'), (r'\mathrel', r'\mathop', r'\mathpunct', r'\overset', r'\underset', r'\not', r'\big', r'\text', '{', r'\sqrt', r'\mathinner'), (r'(', '|', r'\to', r'\sum', r'\int', '/', '=', r'\uparrow', r'\Vert', r'\lim', r'\hat a', r'\|', ']', '<', '+', '!', ',', r'\ldots')):
            t = a + (' ' if a[-1:].isalpha() else '') + b + (' ' if b[-1:].isalpha() else '') + c + (' ' if c[-1:].isalpha() else '')
            if zlib.crc32(t.encode()) % 3 == 0:
                out.append(session(local(t + '{y}' + ('}' if b == '{' else '') + 'z'), local(t + ('}' if b == '{' else '') + r'\right)')))
        return out


class C24(Prop):
    view = Lengths()
    focus = {'space': 10, 'color': 10, 'frac': 3, 'wrap': 4, 'infix': 3, 'text': 2, 'env': 2, 'group': 4}
    nest = dict(probes=['x', r'\kern1pt ', r'\color{red}x', r'\hspace{1em}', r'\raisebox{1pt}{y}', r'\, ', r'\quad ', r'\boxed x', r'\phantom y', r'\color{blue}'], around=['§', r'\color{red}§', r'{\color{red}§}x', r'\boxed{§}', r'\phantom{§}', r'\raisebox{1pt}{$§$}', r'x^{\color{blue}§}', r'\begin{matrix}\color{red}§&§\\§\end{matrix}', r'\def\w#1{\color{red}#1}\w{§}§', r'\left(\color{red}§\middle|§\right)§', r'\genfrac(){1pt}{}{§}{§}', r'\mathrel{§}'])
    nests = (5000, 30000)
    sweep = (r'\0{1pt}{x}', r'\0{x}', r'\0{x}{y}', r'{\color{red}\0 a}b', r'\0{\color{red}a}{b}{c}d', r'\color{\0}x', r'\color{red\0}x', r'\color\0 x', r'\kern1\0 x', r'\kern\0 x', r'\hspace{\0}x', r'\hspace{1pt\0}x', r'\hspace\0 x', r'\mkern1mu\0', r'\0[1pt]{x}', r'\genfrac(){\0}{}ab', r'\genfrac(){1\0}{}ab', r'\raisebox{\0}{a}', r'\raisebox\0{a}', r'\raisebox{1pt}\0 b', r'\begin{matrix}a\\[\0]b\end{matrix}', r'\boxed\0 b', r'\phantom\0 b', r'\cancel\0 b', r'\mathbin{\0}a', r'\mathrel\0 a', r'\fbox{\0}', r'\begin{matrix}\color{red}\0&b\\c\end{matrix}d', r'\0\,\0', r'\color[\0]{1}x', r'\color[rgb]{1,\0,0}x', r'\color[RGB]{1,2,\0}x', r'\color[HTML]{12345\0}x', r'\color[HTML]\0 x', r'\text{\raisebox{1\0}a}')

    def scopes(self, deep):
        push, pop = lambda t, v='': W(t, 'push', v), W('}', 'pop')
        red, blue = 'mrow color:#FF0000;;', 'mrow color:#0000FF;;'
        x = W('x')
        col = [x, W(r'\color{red}', 'set', red), W(r'\color{blue}', 'set', blue), push('{'), push('a^{'), pop, push(r'\left('), W(r'\right)', 'pop')]
        box = [x, W(r'\color{red}', 'set', red), push(r'\boxed{', 'menclose box;'), push(r'\phantom{', 'mphantom ;'), push(r'\cancel{', 'menclose updiagonalstrike;'), push(r'\hphantom{', 'mpadded 0;mphantom ;'), push(r'\sqrt{'), pop]
        cells = [x, W(r'\color{red}', 'set', red), W('&', 'next'), W(r'\\', 'next'), push('{'), pop, W(r'\color{blue}', 'set', blue)]
        m = lambda t, v: W(t, 'x', v)
        gap = [m('x', '-'), m(r'\kern1pt ', '0.1rem'), m(r'\hspace{1em}', '1em'), m(r'\,', '0.16666667em'), m(r'\quad ', '1em'), m(r'\!', ''), W('{', 'push', '-'), W('}', 'pop'), W('{}^{', 'push', '-')]
        line = [m('x', '-'), W(r'\genfrac(){1pt}{}{', 'frac', '0.1rem'), W(r'\genfrac..{0pt}{}{', 'frac', '0'), W(r'\frac{', 'frac', ''), W(r'\binom{', 'frac', '0'), W('}{', 'next', '-'), W('}', 'pop')]
        num = words('1', '2', '.', '-', ',', '0', 'pt', 'mu', 'em', ' ', '}', 'x')
        return [scope('colours', col, 4 + deep, chains=True),
                scope('boxes', box, 4 + deep, chains=True),
                scope('cells', cells, 5 if deep else 4, pre=r'\begin{matrix}', post=r'\end{matrix}', chains=True),
                scope('cells-in-colour', cells, 4, pre=r'\color{blue}\begin{matrix}', post=r'\end{matrix}x', noinv=True),
                scope('raised-styles', words(r'\raisebox{1pt}{', r'\emph', r'\textbf{', 'a', '}', '{', r'\large ', r'\it ', r'\texttt'), 4, pre=r'\raisebox{1em}{', post='}', noinv=True),
                scope('gaps', gap, 4 + deep, marks=[['mspace', ['width']]]),
                scope('lines', line, 5, marks=[['mfrac', ['linethickness']]]),
                scope('numbers', num, 4 if deep else 3, pre=r'\kern', noinv=True),
                scope('numbers-math', num, 4 if deep else 3, pre=r'\mkern', noinv=True),
                scope('hspaces', num + words('{', r'\m '), 4 if deep else 3, pre=r'\def\m{1pt}\hspace{', post='}', noinv=True),
                scope('hspace-bare', num + words('{'), 3 + deep, pre=r'\hspace', noinv=True),
                scope('rgb', words('0', '1', '.', ',', '5', ' ', '-', 'x'), 5 if deep else 4, pre=r'\color[rgb]{1,', post='}x', noinv=True),
                scope('RGB', words('0', '1', '25', ',', '5', ' ', '.', '6'), 5 if deep else 4, pre=r'\color[RGB]{1,', post='}x', noinv=True),
                scope('html', words('0', 'aB', 'f', 'g', ' ', '-', '}', 'F3'), 5 if deep else 4, pre=r'\color[HTML]{12', post='}x', noinv=True),
                scope('names', words('r', 'ed', 'blue', 'Red', ' ', '}', 'x', '[', ']', 'rgb', r'\m '), 4 if deep else 3, pre=r'\def\m{red}\color', noinv=True),
                scope('names-braced', words('r', 'ed', 'blue', 'Red', ' ', '}', 'x', '!', r'\m ', '{'), 4 if deep else 3, pre=r'\def\m{red}\color{', noinv=True),
                scope('macros', words(r'\c ', r'\k ', r'\d{', '}', '{', 'x', r'\e{1pt}', r'\u'), 4 + deep, pre=r'\def\c{\color{red}}\def\k{\kern1pt}\def\d#1{\color{blue}#1}\def\e#1{\hspace{#1}}\def\u{2em}', noinv=True),
                scope('raised', words(r'\raisebox{1pt}{', r'\raisebox{-1em}', r'\raisebox{2ex}{', 'a', '}', '{', r'\bf '), 5 if deep else 4, pre=r'\text{', post='}', noinv=True)]

    def fixed(self):
        rnd = random.Random(24)
        out = []
        nums = sorted({l[:-2] for l in gen.LENS}) + ['18446744073709551616', '1..0', '--1', '1-', '.', '-', '-.', '1.2.3', '99999999999999999999', '100000000000000.000000', '000000000000000000000001', '0.00000000000000000000001', '+1', '1e3', '']
        units = ['pt', 'mm', 'cm', 'in', 'ex', 'em', 'mu', 'sp', 'PT', 'Em', 'mU', 'MU', 'Mu', 'eX', 'IN', 'cM', 'sP', 'px', 'p', '', ' pt', 'p t', 'pt ', 'ptx']
        tm = [r'\kern§ x', r'\mkern§ x', r'\hspace{§}x', r'\mspace{§}x', r'\hskip§', r'\mskip§x', r'\genfrac(){§}{}ab', r'\raisebox{§}{ab}c', r'a\above§ b', r'\begin{matrix}a\\[§]b\end{matrix}', r'\text{a\raisebox{§}b}', r'\hspace*{§}x', r'\kern §y', r'{\kern§}', r'\hspace{ § }', r'\kern{§}x']
        for i, n in enumerate(nums):
            for j, u in enumerate(units):
                for k, t in enumerate(tm):
                    if (i + 5 * j + 3 * k) % 4 == 0:
                        out.append(session(local(t.replace('§', n + u))))
        cn = ['0', '1', '.5', '0.5', '0.1', '0.25', '0.333', '2', '-1', '-0.3', '0.9999', '1.0', '', 'x', '1.2.3', '0.00001', ' 1 ', '255', '256', '300', '12.7', '128', '7', '99', '016']
        for i in range(800):
            out.append(session(local(r'\color[%s]{%s}x' % (rnd.choice(['rgb', 'RGB', 'RGB', 'HTML', 'foo', '']), ','.join(rnd.choice(cn) for _ in range(rnd.choice([1, 2, 3, 3, 3, 3, 3, 3, 4]))))),
                               local(r'\color[HTML]{%s}x' % ''.join(rnd.choice('0123456789abcdefABCDEFgGzZ-. ' if rnd.random() < .2 else '0123456789abcdefABCDEF') for _ in range(rnd.choice([5, 6, 6, 6, 6, 6, 7]))))))
        offs = ['1pt', '2pt', '-1pt', '1em', '-1em', '2ex', '-2ex', '1cm', '0pt', '0.5em', '3pt']
        for _ in range(500):
            out.append(session(local(rnd.choice([r'\raisebox{%s}{a\raisebox{%s}{b\raisebox{%s}c}d}e', r'\text{a\raisebox{%s}{b\raisebox{%s}{c}d\raisebox{%s}{\bf e}}}', r'\text{\raisebox{%s}{b\raisebox{%s}{}d}\raisebox{%s}e}']) % (rnd.choice(offs), rnd.choice(offs), rnd.choice(offs)))))
        for n in sorted(gen.V['colors']) + ['', ' red', 'red ', 'RED', 'r ed', 'redd', 're', 'transparent']:
            out.append(session(local(r'a\color{%s}x' % n), local(r'{a\color{%s}x}y' % n.lower()), local(r'\color{%s}' % n.upper())))
        return out


ALL = {c.__name__: c for c in (C01, C02, C03, C04, C05, C06, C07, C08, C10, C11, C12, C13, C14, C19, C20, C22, C23, C24)}
