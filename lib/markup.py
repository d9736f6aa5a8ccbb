"""Output as tags, and its judgement by the acceptor in TLA+ (Output.tla)."""
import json, os, re, shutil
import mc

ATTR = re.compile(r'\s+([A-Za-z:-]+)="((?:[^"<&]|&(?:lt|gt|amp|quot|apos|#39|#\d+|#x[0-9a-fA-F]+);)*)"')
OPEN = re.compile(r'<([A-Za-z][A-Za-z0-9]*)')
CLOSE = re.compile(r'</([A-Za-z][A-Za-z0-9]*)\s*>')
END = re.compile(r'\s*(/?)>')
TEXT = re.compile(r'(?:[^<>&]|&(?:lt|gt|amp|quot|apos|#39|#\d+|#x[0-9a-fA-F]+);)+')
ENT = {'lt': '<', 'gt': '>', 'amp': '&', 'quot': '"', 'apos': "'"}


def unescape(t):
    def one(m):
        e = m.group(1)
        return ENT[e] if e in ENT else chr(int(e[2:], 16)) if e[1] == 'x' else chr(int(e[1:]))
    return re.sub(r'&([a-z]+|#x?[0-9a-fA-F]+);', one, t)


LAX = re.compile(ATTR.pattern.replace('<&', '&'))      # HTML allows < in values


def tokens(s, html=False):
    """[('<', name, {attributes}, closed), ('>', name), ('t', text), ('bad', where)]"""
    out, i = [], 0
    while i < len(s):
        m = CLOSE.match(s, i)
        if m:
            out.append(('>', m.group(1)))
            i = m.end()
            continue
        m = OPEN.match(s, i)
        if m:
            n, j, at = m.group(1), m.end(), []
            while True:
                a = (LAX if html else ATTR).match(s, j)
                if not a:
                    break
                at.append((a.group(1), unescape(a.group(2))))
                j = a.end()
            e = END.match(s, j)
            if e:
                out.append(('<', n, at, bool(e.group(1))))
                i = e.end()
                continue
        else:
            m = TEXT.match(s, i)
            if m:
                out.append(('t', unescape(m.group(0))))
                i = m.end()
                continue
        out.append(('bad', s[i:i + 40]))
        return out
    return out


def shape(toks):
    """What the acceptor reads of the tokens."""
    out = []
    for t in toks:
        if t[0] == '<':
            out.append(['<', t[1], [a for a, _ in t[2]], t[3]])
        elif t[0] == 't':
            out.append(['t', 'text' if t[1].strip(' \t\r\n') else 'ws'])
        else:
            out.append(list(t))
    return out


def judge(run, outputs):
    """outputs: [(string, what it came from)]; the ones that are not well-formed: [(string, from, why)]"""
    shapes, where = {}, {}
    for i, (s, _) in enumerate(outputs):
        k = json.dumps(shape(tokens(s)))
        where.setdefault(shapes.setdefault(k, len(shapes)), []).append(i)
    d = mc.scratch('output')
    bad = []
    try:
        f = os.path.join(d, 'jobs.json')
        with open(f, 'w', encoding='utf8') as h:
            h.write('[%s]' % ',\n'.join('{"id": %d, "toks": %s}' % (i, k) for k, i in shapes.items()))
        r = mc.tlc('Output.tla', 'Output.cfg', {'JOBS': f}, workers=mc.CORES, sink=bad.append, heap='8g')
        if r.violation:
            raise mc.Broken(r.violation)
        run.states += r.distinct
        run.transitions += r.states
    finally:
        shutil.rmtree(d, ignore_errors=True)
    run.traces += len(outputs)
    return [(outputs[i][0], outputs[i][1], b['why']) for b in bad for i in where[b['id']]]
