"""What a property looks at in an outcome: projections of predictions and observations.

An outcome (normalized by `norm`) is ('ok', elements, wref, wcmd), ('err', message, start, end), ('bad', what)."""
import json, os, re, struct, unicodedata
import mc


def norm(o):
    if 'ok' in o:
        if isinstance(o['ok'], str):
            try:
                root = mc.parse(o['ok'])
            except mc.NotXml as e:
                return ('bad', 'not XML: %s' % e)
            return ('ok', lengths(root['c']), o['wref'], o['wcmd'])
        return ('ok', lengths([mc.pred_tree(e) for e in o['ok']]), o['wref'], o['wcmd'])
    if 'err' in o:
        return ('err', o['err'], o.get('s', o.get('start')), o.get('e', o.get('end')), o.get('idx'))
    if 'panic' in o:
        return ('bad', 'panic: %s' % o['panic'])
    return ('bad', 'no outcome: %s' % str(o)[:200])


def lengths(es):
    """Lengths by the value of their number, in single precision: there is more than one shortest way to write it."""
    for e in es:
        for k, v in e['a'].items():
            if k in ('width', 'style', 'voffset', 'linethickness'):
                e['a'][k] = re.sub(r'\d+(?:\.\d+)?(?=r?em|ex)', lambda m: '%.9g' % struct.unpack('f', struct.pack('f', float(m[0])))[0], v)
        lengths(e['c'])
    return es


# Known findings about single letters: {what is expected: what comes out}
KNOWN_LETTERS = {f['expected']: f['observed'] for f in json.load(open(os.path.join(mc.VERIF, 'known-findings.json'), encoding='utf8'))['findings'] if 'expected' in f}


def excuse(p, o):
    """Where the observation differs from the prediction by a known letter, and there only, take the prediction."""
    if len(p) != len(o):
        return
    for a, b in zip(p, o):
        if a['x'] != b['x'] and a['n'] == b['n'] == 'mi' and len(a['x']) == len(b['x']) and \
                all(c == d or KNOWN_LETTERS.get(c) == d for c, d in zip(a['x'], b['x'])):
            b['x'] = a['x']
        excuse(a['c'], b['c'])


def fold(x):
    return unicodedata.normalize('NFKC', x)


def is_wrapped_mi(e):
    return e['n'] == 'mrow' and not e['a'] and len(e['c']) == 2 and e['c'][0]['n'] == 'mspace' and not e['c'][0]['a'] and e['c'][1]['n'] == 'mi'


def skel(e, keep=lambda n, k, v: None, fonts=False):
    """The element as a string with the attributes for which keep gives a value."""
    if not fonts and is_wrapped_mi(e):
        e = e['c'][1]
    at = ''
    for k, v in sorted(e['a'].items()):
        w = keep(e['n'], k, v)
        if w is not None:
            at += ' %s="%s"' % (k, w)
    x = e['x'] if fonts else fold(e['x'])
    return '<%s%s>%s%s</>' % (e['n'], at, x, ''.join(skel(c, keep, fonts) for c in e['c']))


def find(es, n):
    for e in es:
        if e['n'] == n:
            yield e
        yield from find(e['c'], n)


def numbered_rows(es):
    """For each numbered table: (id, text) of the number cell of each row."""
    out = []
    for t in find(es, 'mtable'):
        if 'width: 100%' in t['a'].get('style', ''):
            rows = []
            for r in t['c']:
                c = r['c'][-1] if r['c'] else None
                rows.append((c['a'].get('id', ''), ''.join(x['x'] for x in c['c'])) if c else ('', ''))
            out.append(rows)
    return out


class View:
    errs = None          # which error messages belong to the property (regular expression); None: none
    spans = False

    def ok(self, es, wref, wcmd):
        return ''.join(skel(e) for e in es)

    def err(self, n):
        return 'error %s' % n[1] + (' at %d..%d' % (n[2], n[3]) if self.spans else '') + (' macro %s' % n[4] if n[4] is not None else '')

    def mine(self, n):
        return n[0] == 'err' and self.errs is not None and re.search(self.errs, n[1]) is not None

    def diff(self, pred, obs, strict):
        """One predicted and one observed outcome; None or a short text."""
        if 'skip' in pred:
            return None
        if 'done' in pred:
            return None if 'ok' in obs else 'reset failed'
        if 'all' in pred:
            if 'all' not in obs or len(obs['all']) != len(pred['all']):
                return 'a batch of %d was expected' % len(pred['all'])
            for i, (p, o) in enumerate(zip(pred['all'], obs['all'])):
                d = self.diff(p, o, strict)
                if d:
                    return 'snippet %d: %s' % (i, d)
            return None
        p, o = norm(pred), norm(obs)
        if p[0] == 'ok' and o[0] == 'ok':
            excuse(p[1], o[1])
            a, b = self.ok(*p[1:]), self.ok(*o[1:])
            return None if a == b else 'expected %s got %s' % (a, b)
        if p[0] == 'err' and o[0] == 'err':
            if not self.mine(p) and not self.mine(o):
                return None
            a, b = self.err(p), self.err(o)
            return None if a == b else 'expected %s got %s' % (a, b)
        if strict or self.mine(p) or self.mine(o):
            return 'expected %s, got %s' % tuple(
                'output ' + self.ok(*x[1:]) if x[0] == 'ok' else self.err(x) if x[0] == 'err' else x[1] for x in (p, o))
        return None

    def diff_session(self, pred, obs, strict):
        """None, or (index, text)"""
        if 'crash' in obs:
            return (0, 'the process died: %s' % obs['crash']) if strict else None
        if pred and 'skip' in pred[0] and len(pred) == 1:
            return None
        pn, on = bool(pred) and 'new' in pred[0], 'new' in obs
        if pn or on:
            p = norm(pred[0]['new']) if pn else ('ok',)
            o = norm(obs['new']) if on else ('ok',)
            if p[0] == o[0] == 'err':
                a, b = self.err(p), self.err(o)
                return (0, 'expected %s got %s' % (a, b)) if a != b and (self.mine(p) or self.mine(o)) else None
            if strict or (p[0] == 'err' and self.mine(p)) or (o[0] == 'err' and self.mine(o)):
                return (0, 'expected %s, got %s' % tuple('a converter' if x[0] == 'ok' else self.err(x) if x[0] == 'err' else x[1] for x in (p, o)))
            return None
        if len(pred) != len(obs['ops']):
            return (0, 'number of outcomes')
        for i, (p, o) in enumerate(zip(pred, obs['ops'])):
            d = self.diff(p, o, strict)
            if d:
                return (i, d)
        return None


class Numbers(View):
    errs = r'label|\\tag|notag|nonumber'

    def ok(self, es, wref, wcmd):
        return str([[x for _, x in rows] for rows in numbered_rows(es)])


class References(View):
    errs = r'label|eqref|\\ref'

    def ok(self, es, wref, wcmd):
        refs = [(a['a'].get('href'), a['x']) for a in find(es, 'a')]
        return 'ids %s refs %s undefined %s' % ([[r if r[0] else '' for r in rows] for rows in numbered_rows(es)], refs, wref)


def keep_ids(n, k, v):
    return v if k in ('id', 'href') else None


class Whole(View):
    """Elements, texts, ids and links."""
    def ok(self, es, wref, wcmd):
        return ''.join(skel(e, keep_ids) for e in es) + (' undefined references' if wref else '')


class Skeleton(View):
    def __init__(self, errs=None, spans=False):
        self.errs, self.spans = errs, spans


class Status(View):
    def __init__(self, errs, spans=True):
        self.errs, self.spans = errs, spans

    def ok(self, es, wref, wcmd):
        return 'accepted'


class Scripts(View):
    errs = r'script|base|limits|prime'
    spans = True

    def ok(self, es, wref, wcmd):
        return ''.join(skel(e, lambda n, k, v: v if k == 'movablelimits' else None) for e in es)


class Styles(View):
    def ok(self, es, wref, wcmd):
        return ''.join(skel(e, lambda n, k, v: v if k in ('displaystyle', 'scriptlevel') else None) for e in es)


class Fonts(View):
    def ok(self, es, wref, wcmd):
        return ''.join(skel(e, lambda n, k, v: v if k == 'mathvariant' else None, True) for e in es)


class Tables(View):
    errs = r'column|row|hline|hdashline|`&`|"&"|\\\\\\\\|new ?line|array'
    spans = True

    def ok(self, es, wref, wcmd):
        return ''.join(skel(e, lambda n, k, v: v if n in ('mtable', 'mtr', 'mtd') and k not in ('id', 'displaystyle', 'scriptlevel') else None) for e in es)


class Spacing(View):
    def ok(self, es, wref, wcmd):
        return ''.join(skel(e, lambda n, k, v: v if n == 'mo' and k in ('lspace', 'rspace') or n == 'mspace' or n == 'mpadded' and k == 'style' else None) for e in es)


class Sizes(View):
    errs = r'delimiter|relation after|large operator'
    spans = True

    def ok(self, es, wref, wcmd):
        return ''.join(skel(e, lambda n, k, v: v if n == 'mo' and k in ('stretchy', 'symmetric', 'largeop', 'form', 'minsize', 'maxsize') or k in ('accent', 'accentunder') else None) for e in es)


class Lengths(View):
    errs = r'length|unit|color'
    spans = True

    def ok(self, es, wref, wcmd):
        return ''.join(skel(e, lambda n, k, v: v if n in ('mspace', 'mpadded', 'menclose') or n == 'mfrac' and k in ('linethickness', 'style') or n == 'mrow' and k in ('style', 'class') else None) for e in es)


class Unknown(View):
    errs = r'^Unknown command'
    spans = True

    def ok(self, es, wref, wcmd):
        return ''.join(skel(e, lambda n, k, v: v if n == 'merror' else None) for e in es) + (' unknown commands' if wcmd else '')


class Text(View):
    errs = r'text'
    spans = True

    def ok(self, es, wref, wcmd):
        return ''.join(skel(e, lambda n, k, v: v if n in ('mtext', 'span', 'b', 'i', 'em', 'code', 's', 'u') else None) for e in es)


class Everything(View):
    errs = ''
    spans = True

    def ok(self, es, wref, wcmd):
        return ''.join(mc.show(e) for e in es) + (' undefined references' if wref else '') + (' unknown commands' if wcmd else '')
