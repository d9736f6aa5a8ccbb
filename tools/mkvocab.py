#!/usr/bin/env python3
"""One-off: writes spec/vocab.json, the vocabulary of the specification, from the
command tables of the repository as they were when the specification was written.
The checks read the committed vocab.json, never the tables, so a later change to a
table shows up as a difference between code and specification."""
import json, re, sys, unicodedata, struct
from decimal import Decimal
R = '/repo/crates'
src = {n: open(f'{R}/math-core/src/{n}.rs').read() for n in ('commands', 'predefined')}
sym = open(f'{R}/mathml-renderer/src/symbol.rs').read()

import numpy as np
def f32(x): 
    s = np.format_float_positional(np.float32(x), unique=True, trim='-')
    return s
F = np.float32
MULT = {'Pt': (F(0.1), 'rem'), 'Mm': (F(0.28453), 'rem'), 'Cm': (F(2.8453), 'rem'), 'In': (F(7.227), 'rem'),
        'Ex': (F(1), 'ex'), 'Em': (F(1), 'em'), 'Mu': (F(0.055555556), 'em'), 'Sp': (F(1.525879e-6), 'rem')}
def length(value, unit):
    k, u = MULT[unit]
    v = k * F(value)
    s = f32(v)
    if v != 0 and abs(v) < F('0.000001'):
        s = np.format_float_scientific(F(v), unique=True, trim='-', exp_digits=1)
    return s + (u if v != 0 else '')

symbols = {}
for m in re.finditer(r"pub const (\w+): (\w+)\s*=\s*(.*?);[ \t]*(?://[^\n]*)?\n", sym, re.S):
    name, ty, ex = m.groups()
    c = re.search(r"'(\\u\{[0-9A-Fa-f]+\}|\\.|[^'])'", ex)
    if not c:
        if 'EMPTY_SET' in ex: symbols[name] = ('SuperChar', '∅\ufe00', ''); continue
        print('sym?', name, ex, file=sys.stderr); continue
    ch = c.group(1)
    if ch.startswith('\\u'): ch = chr(int(ch[3:-1], 16))
    elif ch.startswith('\\'): ch = {"\\'": "'", '\\\\': '\\'}[ch]
    if 'vs1' in ex: ch += '\ufe00'
    cat = re.search(r"Category::(\w+)", ex)
    cat = cat.group(1) if cat else ''
    if ty in ('OrdLike',) or 'ord(' in ex:
        cat = {'FGandForceDefault': 'FGD', 'KButUsedToBeB': 'KB'}.get(cat, cat)
    if ty == 'Rel': cat = {'Default': '', 'A': 'A', 'DandForceDefault': 'D'}[cat]
    symbols[name] = (ty, ch, cat)

def S(x):  # symbol expression -> (chars, cat)
    x = x.strip()
    m = re.fullmatch(r"symbol::(\w+)((?:\.\w+\(\))*)", x)
    if m: 
        t = symbols[m.group(1)]; return t[1], t[2]
    m = re.fullmatch(r"'(\\u\{[0-9A-Fa-f]+\}|\\.|[^'])'", x)
    if m:
        ch = m.group(1)
        if ch.startswith('\\u'): ch = chr(int(ch[3:-1], 16))
        elif ch.startswith('\\'): ch = ch[1]
        return ch, ''
    raise ValueError(x)

def split(s):
    out, d, cur, i = [], 0, '', 0
    while i < len(s):
        ch = s[i]
        m = re.match(r"'(\\u\{[0-9A-Fa-f]+\}|\\.|[^'])'", s[i:])
        if m: cur += m.group(0); i += len(m.group(0)); continue
        if ch == '"':
            j = i + 1
            while s[j] != '"': j += 2 if s[j] == '\\' else 1
            cur += s[i:j+1]; i = j + 1; continue
        if ch in '([{': d += 1
        if ch in ')]}': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
        i += 1
    if cur.strip(): out.append(cur.strip())
    return out

VAR = {'Transform': 'tf', 'TransformSwitch': 'tfsw'}
def space(x):
    m = re.fullmatch(r"LatexUnit::(\w+)\.length_with_unit\((-?[\d.]+)\)", x.strip())
    return length(float(m.group(2)), m.group(1))
def variant(x):
    if x == 'MathVariant::Normal': return 'Normal'
    return re.fullmatch(r"MathVariant::Transform\(TextTransform::(\w+)\)", x).group(1)
def attrs(x):
    return {'OpAttrs::empty()': '', 'OpAttrs::STRETCHY_FALSE': 'false', 'OpAttrs::STRETCHY_TRUE': 'true'}[x]
def style(x): return {'Display': 'D', 'Text': 'T', 'Script': 'S', 'ScriptScript': 'SS'}[x.split('::')[-1]]
def frac(x): return '' if x == 'None' else {'DisplayStyleTrue': 'd', 'DisplayStyleFalse': 't', 'CFracStyle': 'c'}[x[5:-1].split('::')[-1]]
def last(x): return x.split('::')[-1].rstrip(')')
def letter(x):
    x = x.strip()
    m = re.fullmatch(r"SuperChar::from_char\((.*)\)", x)
    if m: return S(m.group(1))[0]
    m = re.fullmatch(r"symbol::(\w+)(?:(?:\.as_op\(\))?\.as_superchar\(\))?", x)
    if m: return symbols[m.group(1)][1]
    m = re.fullmatch(r"TextTransform::DoubleStruck\.transform_char\('(.)', false\)", x)
    if m: return chr(0x1D552 + ord(m.group(1)) - ord('a'))
    raise ValueError(x)

statics = {}
def conv(e):
    e = e.strip()
    if e.startswith('Token::'): e = e[7:]
    m = re.fullmatch(r"(\w+)(?:\((.*)\))?", e, re.S)
    if not m:
        m = re.fullmatch(r"InfixGenFrac \{ with_line: (\w+), delim: (.*) \}", e)
        if m: return dict(k='infix', p='l' if m.group(1) == 'true' else '', q='' if m.group(2) == 'None' else {'Paren': '()', 'Brace': '{}', 'Brack': '[]'}[last(m.group(2))])
        m = re.fullmatch(r"Tag \{ parenthesized: (\w+) \}", e)
        if m: return dict(k='tag', q='p' if m.group(1) == 'true' else '')
        m = re.fullmatch(r"OperatorName \{ with_limits: (\w+) \}", e)
        if m: return dict(k='opname', q='l' if m.group(1) == 'true' else '')
        raise ValueError(e)
    k, a = m.group(1), split(m.group(2) or '')
    simple = {'GroupBegin': 'gb', 'GroupEnd': 'ge', 'Left': 'left', 'Right': 'right', 'Middle': 'middle', 'NewLine': 'newline', 'NoNumber': 'nonum', 'Label': 'label', 'EqRef': 'eqref', 'Genfrac': 'genfrac', 'Prescript': 'prescript', 'Sideset': 'sideset', 'Sqrt': 'sqrt', 'NonBreakingSpace': 'nbsp', 'RaiseBox': 'raisebox', 'Cramped': 'cramped', 'Color': 'color', 'Let': 'let', 'Global': 'global', 'Relax': 'relax', 'MathChoice': 'mathchoice', 'Dots': 'dots'}
    if k in simple: return dict(k=simple[k])
    if k in ('Relation', 'Ord', 'Op', 'BinaryOp', 'Open', 'Close', 'Punctuation', 'Inner'):
        x, c = S(a[0])
        kk = {'Relation': 'rel', 'Ord': 'ord', 'Op': 'op', 'BinaryOp': 'bin', 'Open': 'open', 'Close': 'close', 'Punctuation': 'punct', 'Inner': 'inner'}[k]
        r = dict(k=kk, x=x)
        if c and kk in ('rel', 'ord', 'op', 'open', 'close'): r['p'] = c
        return r
    if k in ('ForceRelation', 'ForceOrd', 'ForceBinaryOp', 'ForcePunctuation', 'ForceMathInner', 'ForceLargeOp'):
        return dict(k={'ForceRelation': 'frel', 'ForceOrd': 'ford', 'ForceBinaryOp': 'fbin', 'ForcePunctuation': 'fpunct', 'ForceMathInner': 'finner', 'ForceLargeOp': 'flop'}[k], x=S(a[0])[0])
    if k in ('ForceOpen', 'ForceClose'):
        return dict(k='fopen' if k == 'ForceOpen' else 'fclose', x=S(a[0])[0], p={'No': 'N', 'Pretend': 'P', 'Yes': 'Y'}[last(a[1])])
    if k == 'Letter': return dict(k='letter', x=letter(a[0]), **({'q': 't'} if a[1] == 'Mode::MathOrText' else {}))
    if k == 'UprightLetter': return dict(k='upletter', x=letter(a[0]))
    if k in VAR: return dict(k=VAR[k], p=variant(a[0]))
    if k == 'MathOrTextMode':
        r = conv(a[0][1:]); r['mt'] = S(a[1])[0]; return r
    if k == 'TextMode':
        m = re.fullmatch(r"TextToken::(\w+)\((.*)\)", a[0])
        kind, v = m.groups()
        if kind in ('Accent', 'Letter'): return dict(k='textmode', p=kind, x=S(v)[0])
        if kind == 'Style': return dict(k='textmode', p='Style', x=last(v))
        return dict(k='textmode', p='Size', x=last(v)[4:] + '%')
    if k == 'CustomCmd':
        return dict(k='bcmd', na=int(a[0]), body=body(a[1][1:]))
    if k == 'Space': return dict(k='space', x=space(a[0]))
    if k == 'Accent': return dict(k='accent', x=S(a[0])[0], p='o' if a[1] == 'true' else 'u', q=attrs(a[2]))
    if k == 'OverUnderBrace': return dict(k='obrace', x=S(a[0])[0], q='o' if a[1] == 'true' else 'u')
    if k == 'Overset': return dict(k='oset', q='o')
    if k == 'Underset': return dict(k='oset', q='u')
    if k == 'XArrow':
        x, c = S(a[0]); return dict(k='xarrow', x=x, p=c)
    if k == 'Big': return dict(k='big', p=['', '1.2em', '1.623em', '2.047em', '2.470em'][int(a[0][-1])], q='' if a[1] == 'None' else last(a[1])[0].lower())
    if k in ('PseudoOperator', 'PseudoOperatorLimits'):
        return dict(k='pop' if k == 'PseudoOperator' else 'popl', x=json.loads(re.sub(r'\\u\{([0-9A-Fa-f]+)\}', lambda m: '\\u%04x' % int(m.group(1), 16), a[0])))
    if k == 'Frac': return dict(k='frac', p=frac(a[0]))
    if k == 'Binom': return dict(k='binom', p=frac(a[0]))
    if k == 'Text': return dict(k='text', p='' if a[0] == 'None' else last(a[0]))
    if k == 'MathClass': return dict(k='mathclass', p={'Ord': 'Ord', 'Op': 'Op', 'Bin': 'Bin', 'Rel': 'Rel', 'Open': 'Open', 'Close': 'Close', 'Punct': 'Punct', 'Inner': 'Inner'}[last(a[0])])
    if k == 'Prime':
        n = last(a[0]); return dict(k='prime', q='R' if n.startswith('Rev') else 'F', na={'Single': 1, 'Double': 2, 'Triple': 3, 'Quadruple': 4, 'Reversed': 1, 'ReversedDouble': 2, 'ReversedTriple': 3}[n])
    if k == 'Limits': return dict(k='limits', p=last(a[0])[0])
    if k == 'HLine': return dict(k='hline', p=last(a[0]))
    if k == 'NewCommand': return dict(k='newcmd', p=last(a[0]))
    if k == 'Def': return dict(k='def', p='global' if a[0] == 'true' else '')
    if k == 'Style': return dict(k='style', p=style(a[0]))
    if k == 'KernOrSkip': return dict(k='kern', p=last(a[0])[0])
    if k == 'CustomSpace': return dict(k='cspace', p=last(a[0])[0])
    if k == 'Phantom': return dict(k='phantom', p=last(a[0])[0])
    if k == 'Enclose':
        if 'union' in a[0]: return dict(k='enclose', p='X')
        return dict(k='enclose', p={'UP_DIAGONAL': 'U', 'DOWN_DIAGONAL': 'D', 'BOX': 'B', 'ACTUARIAL': 'A', 'PHASOR_ANGLE': 'P'}[last(a[0])])
    if k == 'Overlay': return dict(k='overlay', x={'Solidus': '\u0338', 'VerticalLine': '\u20d2'}[last(a[0])])
    if k == 'VerticalLineDef':
        return dict(k='vld', p='' if a[0] == 'None' else {'RelSpacing': 'R', 'RelSpacingStretchy': 'RS', 'OpSpacingStretchy': 'OS'}[last(a[0])])
    if k == 'CustomCmdArg': return dict(k='carg', na=int(a[0]))
    if k == 'InternalStringLiteral': return dict(k='ilit', x=json.loads(a[0]))
    if k == 'MathChoiceInternal':
        return dict(k='mci', cls='', body=statics[a[1][1:]])
    raise ValueError(e)

def body(name):
    if name.startswith('predefined::'): return statics[name[12:]]
    if not name.startswith('['): return statics[name]
    return [conv(x) for x in split(name[1:-1])]

ptext = re.sub(r"//[^\n]*", "", src['predefined'])
for m in re.finditer(r"static (\w+): MathChoice = MathChoice \{(.*?)\};", ptext, re.S):
    parts = dict(p.split(':', 1) for p in split(m.group(2)))
    statics[m.group(1)] = [conv(parts[x]) for x in ('display', 'text', 'script', 'scriptscript')]
pend = [(m.group(1), m.group(2)) for m in re.finditer(r"pub static (\w+): \[Token; \d+\] = \[(.*?)\];", ptext, re.S)]
while pend:
    nxt = []
    for n, b in pend:
        try: statics[n] = [conv(x) for x in split(b)]
        except KeyError: nxt.append((n, b))
    assert len(nxt) < len(pend), nxt
    pend = nxt

ctext = src['commands']
cm = ctext[ctext.index('static COMMANDS'):ctext.index('pub fn resolve_builtin_cmd')]
cmds = {}
for line in cm.splitlines()[1:]:
    m = re.match(r'\s*"((?:\\.|[^"])*)" => (.*?),(?:\s*//.*)?$', line)
    if not m:
        if line.strip() and not line.strip().startswith('//') and line.strip() != '};': print('cmd?', line, file=sys.stderr)
        continue
    name = json.loads('"' + m.group(1) + '"')
    cmds[name] = conv(m.group(2))
fm = ctext[ctext.index('static FUNCTIONS'):ctext.index('static COMMANDS')]
for f in re.findall(r'"(\w+)"', fm): cmds[f] = dict(k='pop', x=f)
um = ctext[ctext.index('static UNICODE_OPERATORS'):]
chars = {}
for line in um.splitlines()[1:]:
    m = re.match(r"\s*'(\\u\{\w+\}|.)' => (.*?),(?:\s*//.*)?$", line)
    if not m:
        if line.strip() == '};': break
        if line.strip() and not line.strip().startswith('//'): print('char?', line, file=sys.stderr)
        continue
    ch = m.group(1)
    if ch.startswith('\\u'): ch = chr(int(ch[3:-1], 16))
    chars[ch] = dict(conv(m.group(2)), mt=ch)
# the ASCII characters
mt = lambda d, c: dict(d, mt=c)
chars.update({
 '&': dict(k='newcol'), '[': dict(k='lb'), ']': dict(k='rb'), '^': dict(k='circ'), '_': dict(k='us'),
 '{': dict(k='gb'), '}': dict(k='ge'), '~': dict(k='nbsp'), '$': dict(k='dollar'),
 "'": mt(dict(k='prime', q='F', na=1), '’'), '<': mt(dict(k='rel', x='<'), '<'), '>': mt(dict(k='rel', x='>'), '>'),
 '!': mt(dict(k='close', x='!', p='DE'), '!'), '(': mt(dict(k='open', x='(', p='F'), '('), ')': mt(dict(k='close', x=')', p='G'), ')'),
 '*': mt(dict(k='fbin', x='∗'), '*'), '+': mt(dict(k='bin', x='+'), '+'), ',': mt(dict(k='punct', x=','), ','),
 '-': mt(dict(k='bin', x='−'), '-'), '/': mt(dict(k='ord', x='/', p='KB'), '/'), ':': mt(dict(k='frel', x=':'), ':'),
 ';': mt(dict(k='punct', x=';'), ';'), '=': mt(dict(k='rel', x='='), '='), '|': mt(dict(k='ord', x='|', p='FGD'), '|'),
 '"': dict(k='letter', x='”', q='t'), '`': dict(k='letter', x='‘', q='t'), '\u00a0': dict(k='letter', x='\u00a0', q='t'),
})
for c in '.?@': chars[c] = dict(k='letter', x=c, q='t')
import string
for c in string.ascii_letters: chars[c] = dict(k='letter', x=c, q='t')
for c in string.digits: chars[c] = dict(k='digit', x=c)
for c in 'éäαβπıœΓЖ中ﬁ𝔸€…“∂∇ϵϝȷ': 
    if c not in chars: chars[c] = dict(k='letter', x=c, q='t')
# lengths: number -> unit -> css
nums = ['0', '1', '2', '3', '5', '10', '18', '0.5', '1.5', '2.25', '.5', '-1', '-2', '-0.5', '-1.5', '7.', '100', '-0',
        '4', '6', '7', '8', '9', '12', '20', '33', '007', '00', '0.0', '-0.0', '-.5', '-7.', '3.14159265', '0.1', '0.3', '0.25', '0.75', '1.25', '0.05', '0.01', '-0.1', '123.456', '99999', '1234567', '16777217', '18446744073709551615', '-18446744073.709551615',
        '0.0001', '0.00001', '0.0000001', '0.0000000000000000001', '-100', '-18', '-3', '1.0', '2.50', '0.333333', '65536', '1000', '11', '22', '21', '111', '112', '121', '211', '212', '221', '222', '-11', '-21', '-12', '-22', '1.1', '1.2', '2.1', '2.2', '.1', '.2', '.11', '.12', '.21', '.22', '1.', '2.', '11.', '12.', '12.5', '-.1', '-.2', '-1.', '-2.', '-1.1', '-2.1']
lens = {}
for n in nums:
    for u in MULT:
        lens[n + u.lower()] = length(float(n), u)
# fonts
FN = {'Bold': 'BOLD', 'BoldFraktur': 'BOLD FRAKTUR', 'BoldItalic': 'BOLD ITALIC', 'BoldSansSerif': 'SANS-SERIF BOLD', 'BoldScript': 'BOLD SCRIPT',
      'DoubleStruck': 'DOUBLE-STRUCK', 'Fraktur': 'FRAKTUR', 'Italic': 'ITALIC', 'Monospace': 'MONOSPACE', 'SansSerif': 'SANS-SERIF',
      'SansSerifBoldItalic': 'SANS-SERIF BOLD ITALIC', 'SansSerifItalic': 'SANS-SERIF ITALIC', 'ScriptChancery': 'SCRIPT', 'ScriptRoundhand': 'SCRIPT'}
DN = ['ZERO','ONE','TWO','THREE','FOUR','FIVE','SIX','SEVEN','EIGHT','NINE']
BLK = {'DOUBLE-STRUCK': 'DOUBLE-STRUCK', 'FRAKTUR': 'BLACK-LETTER', 'SCRIPT': 'SCRIPT', 'ITALIC': None}
def fontchar(f, c):
    fn = FN[f]
    n = unicodedata.name(c, '')
    cands = []
    if c.isascii() and c.isalpha():
        case = 'CAPITAL' if c.isupper() else 'SMALL'
        cands = [f'MATHEMATICAL {fn} {case} {c.upper()}']
        if BLK.get(fn): cands.append(f'{BLK[fn]} {case} {c.upper()}')
        if fn == 'ITALIC' and c == 'h': cands.append('PLANCK CONSTANT')
    elif c.isdigit() and c.isascii(): cands = [f'MATHEMATICAL {fn} DIGIT {DN[int(c)]}']
    elif n.startswith('GREEK'):
        base = n.replace('GREEK ', '')
        m = {'LUNATE EPSILON SYMBOL': 'EPSILON SYMBOL', 'SMALL LETTER FINAL SIGMA': 'SMALL FINAL SIGMA', 'CAPITAL THETA SYMBOL': 'CAPITAL THETA SYMBOL',
             'LETTER DIGAMMA': 'CAPITAL DIGAMMA', 'SMALL LETTER DIGAMMA': 'SMALL DIGAMMA'}
        base = m.get(base, base.replace('LETTER ', ''))
        cands = [f'MATHEMATICAL {fn} {base}']
        if fn == 'DOUBLE-STRUCK': cands.append(f'DOUBLE-STRUCK {base}')
    elif c == '∂': cands = [f'MATHEMATICAL {fn} PARTIAL DIFFERENTIAL']
    elif c == '∇': cands = [f'MATHEMATICAL {fn} NABLA']
    elif c == 'ı': cands = [f'MATHEMATICAL {fn} SMALL DOTLESS I']
    elif c == 'ȷ': cands = [f'MATHEMATICAL {fn} SMALL DOTLESS J']
    elif c == '∑' and fn == 'DOUBLE-STRUCK': cands = ['DOUBLE-STRUCK N-ARY SUMMATION']
    for x in cands:
        try: r = unicodedata.lookup(x)
        except KeyError: continue
        return r
    return None
letters = set(string.ascii_letters + string.digits)
for d in list(cmds.values()) + list(chars.values()):
    if d['k'] in ('letter', 'upletter', 'digit') and len(d['x']) == 1: letters.add(d['x'])
tf = {}
for f in FN:
    t = {}
    for c in sorted(letters):
        r = fontchar(f, c)
        if r:
            if f == 'ScriptChancery': r += '\ufe00'
            if f == 'ScriptRoundhand': r += '\ufe01'
            t[c] = r
    tf[f] = t

import html
used = set()
def walk(o):
    if isinstance(o, str): used.update(o)
    elif isinstance(o, dict):
        for k, v in o.items(): walk(k); walk(v)
    elif isinstance(o, list):
        for v in o: walk(v)
walk([cmds, chars, tf])
EXTRA = 'éäñαβπıœΓЖ中ﬁ𝔸€…“”∂∇ϵϝȷ☃😀\u00a0\u2063\u2003\u2004\u205f\u2009'
used.update(EXTRA)
u8 = {c: len(c.encode()) for c in sorted(used) if ord(c) > 127}
import urllib.parse
PCT = ' "#%<>[\\]^`{|}'
pct = {c: ''.join('%%%02X' % b for b in c.encode()) for c in sorted(used | set(PCT)) if (ord(c) > 127 and ord(c) < 0x10000) or c in PCT or ord(c) < 32}
symt = {'isep': '\u2063', 'nbsp': '\u00a0', 'em': '\u2003', 'third': '\u2004', 'medmath': '\u205f', 'thin': '\u2009', 'dvert': '‖',
        'prime1': '′', 'prime2': '″', 'prime3': '‴', 'prime4': '⁗', 'rprime1': '‵', 'rprime2': '‶', 'rprime3': '‷', 'solidus': '\u0338', 'vs1': '\ufe00', 'vs2': '\ufe01', 'vline': '\u20d2'}
sol = {}
for c in sorted(used):
    r = unicodedata.normalize('NFC', c + '\u0338')
    if len(r) == 1: sol[c] = sol[r] = r
colors = {}
for m in re.finditer(r'"(\w+)" => (?:Some\()?\(?(?:RGB|Rgb|rgb)?.*?(\d+|0x[0-9a-fA-F]+), (\d+|0x[0-9a-fA-F]+), (\d+|0x[0-9a-fA-F]+)', open(f'{R}/math-core/src/color_defs.rs').read()):
    colors[m.group(1)] = '#%02X%02X%02X' % tuple(int(x, 0) for x in m.groups()[1:])
# commands which exist or mean something else if the configuration says so
src = open(f'{R}/math-core/src/commands.rs').read()
src = src[src.index('pub fn resolve_builtin_cmd'):]
def arms(t):
    r = {}
    for m in re.finditer(r'((?:"\w+"(?: \| )?)+) =>\s*(?:\{\s*)?(Token::\w+\((?:[^()]|\([^()]*\))*\))', t):
        for n in re.findall(r'"(\w+)"', m.group(1)): r[n] = conv(m.group(2))
    return r
unrel = arms(src[:src.index("'unicode_substitution: {")])
uni = arms(src[src.index("'unicode_substitution: {"):])
print(unrel, uni)
walk([unrel, uni]); u8.update({c: len(c.encode()) for c in used if ord(c) > 127})
u8.update({c: len(c.encode()) for c in '\x85\u1680\u2028\u2029\u3000\u200b\ufeff'})      # white space elsewhere, but not here
# Offsets on top of each other: those which are left, in the order rem, em, ex
import itertools
OFF = ['1pt', '2pt', '-1pt', '1em', '-1em', '2ex', '-2ex', '1cm', '0pt', '0.5em', '3pt']
PARTS = {'rem': 0, 'em': 1, 'ex': 2}
sums = {}
for k in (2, 3):
    for ls in itertools.product(OFF if k == 2 else OFF[:7], repeat=k):
        tot = [F(0)] * 3
        for l in ls:
            m, u = MULT[l[-2:].capitalize()]
            tot[PARTS[u]] += m * F(float(l[:-2]))
        sums['+'.join(lens[l] for l in ls)] = [f32(v) + u for v, u in zip(tot, PARTS) if v != 0]
json.dump({'sums': sums, 'cmds': cmds, 'uni': uni, 'unrel': unrel, 'chars': chars, 'tf': tf, 'lens': lens, 'u8': u8, 'pct': pct, 'sym': symt, 'sol': sol, 'colors': colors}, open('/verif/spec/vocab.json', 'w'), ensure_ascii=False, indent=0, sort_keys=True)
print(len(cmds), len(chars), len(u8), len(sol), len(colors), {k: len(v) for k, v in tf.items()})
