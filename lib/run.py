"""One check: explore the specification, run the implementation on everything that was explored, compare."""
import json, os, random, re, shutil, sys, time, traceback
import mc, gen
from mc import Broken

TITLES = {}
for _l in open(os.path.join(mc.VERIF, 'properties.jsonl'), encoding='utf8'):
    _p = json.loads(_l)
    TITLES[_p['id']] = _p['title']


class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.deep = 1 if tier == 'thorough' else 0
        self.states = self.transitions = self.traces = 0
        self.samples, self.found, self.known, self.parts = [], [], [], {}
        self.start = time.time()
        self.seen_known = set()

    # ---- results
    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def violation(self, what, detail):
        self.found.append(dict(what=what, **detail))

    def count(self, part, n):
        self.parts[part] = self.parts.get(part, 0) + n

    def finish(self, level, assumptions, extra=None):
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level,
              'coverage': dict({'states': self.states, 'transitions': self.transitions, 'traces_validated_against_impl': self.traces,
                                'samples': self.samples, 'parts': self.parts}, **(extra or {})),
              'assumptions': list(assumptions), 'wall_s': round(time.time() - self.start, 1), 'violations': len(self.found)}
        d = os.path.join(mc.VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + '.json'), 'w', encoding='utf8') as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
        if self.found:
            d = os.path.join(mc.VERIF, 'replays')
            os.makedirs(d, exist_ok=True)
            self.found.sort(key=lambda v: len(json.dumps(v.get('session', v), ensure_ascii=False)))
            path = os.path.join(d, '%s-%s.json' % (self.pid, self.tier))
            with open(path, 'w', encoding='utf8') as f:
                json.dump({'property': self.pid, 'title': TITLES.get(self.pid), 'violations': self.found[:400], 'total': len(self.found)}, f, indent=1, ensure_ascii=False)
            v = self.found[0]
            print('%d violations; the smallest: %s' % (len(self.found), v['what'][:1500]))
            if 'session' in v:
                print('session: %s' % json.dumps(v['session'], ensure_ascii=False)[:1500])
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            return 1
        print('%s %s: %d states, %d transitions, %d behaviours replayed (%s) in %d s' % (
            self.pid, self.tier, self.states, self.transitions, self.traces,
            ', '.join('%s %d' % kv for kv in sorted(self.parts.items())), time.time() - self.start))
        return 0


def known_findings(run):
    """The listed findings which are still there."""
    for f in json.load(open(os.path.join(mc.VERIF, 'known-findings.json'), encoding='utf8'))['findings']:
        if f['property'] != run.pid:
            continue
        src = f['input'] if isinstance(f['input'], str) else repeat(f['input'])
        o = mc.run_impl([{'id': 0, 'config': {}, 'macros': [], 'ops': [{'op': 'local', 'src': src, 'block': True}]}], 1, stack=f.get('stack'), memory=f.get('memory'))[0]
        if 'stack' in f or 'memory' in f:
            if 'crash' in o:
                run.known.append(f['what'])
            continue
        o = o['ops'][0] if 'ops' in o else o
        if 'ok' in o and ('observed' in f and f['observed'] in o['ok'] or f['id'] == 'nonumber-and-tag' and '(1)' not in o['ok']):
            run.known.append(f['what'])


def repeat(parts):
    """['a', 3, 'b']: aaab"""
    out = ''
    for x in parts:
        out = out + x if isinstance(x, str) else out[:-len(last)] + last * x
        last = x if isinstance(x, str) else ''
    return out


# ---------------------------------------------------------------------------- scopes: sessions which TLC writes

def tla_scope(s):
    base = mc.spec_session({'id': s['id'], 'config': s['config'], 'macros': s['macros'], 'ops': []})
    out = {k: s[k] for k in s if k not in ('words', 'pre', 'post', 'config', 'macros', 'id')}
    out.update(id=s['id'], cfg=base['cfg'], macros=base['macros'], pre=list(s['pre']), post=list(s['post']),
               words=[{'cs': list(w['text']), 'k': w['k'], 'v': w['v'], 'it': w['it'], 'ex': list(w['ex'])} for w in s['words']])
    return out


def concrete(s, op):
    """A call as the harness takes it, with its words."""
    if op['op'] == 'reset':
        return {'op': 'reset'}, []
    ws = [s['words'][i - 1] for i in op['w']]
    if op['op'] == 'all':
        return {'op': 'all', 'items': [{'src': s['pre'] + w['text'] + s['post'], 'block': op['block']} for w in ws]}, ws
    return {'op': op['op'], 'src': s['pre'] + ''.join(w['text'] for w in ws) + s['post'], 'block': op['block']}, ws


def explore(run, prop, scopes, config):
    """All sessions of the scopes: the invariants in config hold, and the implementation agrees."""
    d = mc.scratch('scopes')
    try:
        groups = {}
        for s in scopes:
            groups.setdefault(bool(s.get('noinv')), []).append(s)
        for noinv, ss in sorted(groups.items()):
            f = os.path.join(d, 'scopes%d.json' % noinv)
            with open(f, 'w', encoding='utf8') as h:
                json.dump([tla_scope(s) for s in ss], h)
            byid = {s['id']: s for s in ss}
            got = []
            r = mc.tlc('Properties.tla', 'Base.cfg' if noinv else config, {'JOBS': f}, workers=mc.CORES, sink=got.append, heap='10g', timeout=6000)
            if r.violation:
                raise Broken('the specification violates its own invariant: %s\n%s' % (r.violation, where(r.lines)))
            run.states += r.distinct
            run.transitions += r.states
            check_predictions(run, prop, byid, got)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def where(lines):
    """The last state of a trace, readable: the snippets, and the rest."""
    t = '\n'.join(lines)
    t = t[t.rfind('\nState '):]
    srcs = re.findall(r'src \|->\s*<<(.*?)>>', t, re.S)
    chars = lambda x: ''.join(c.encode().decode('unicode_escape') if c.startswith('\\') else c for c in re.findall(r'"((?:\\.|[^"])*)"', x))
    return '%s\nsnippets: %s\n%s' % (re.findall(r'id \|-> ("[^"]*")', t)[:1], [chars(x) for x in srcs], t[t.find('outs ='):][:6000] + (t if os.environ.get('DEBUG') else ''))


def check_predictions(run, prop, byid, got):
    sessions, preds, keys = [], {}, {}
    for i, g in enumerate(got):
        s = byid[g['id']]
        cs = [concrete(s, o) for o in g['ops']]
        kops = [dict(o, ws=ws) for o, ws in cs]
        sessions.append({'id': i, 'config': s['config'], 'macros': s['macros'], 'ops': [o for o, _ in cs]})
        preds[i] = g['outs']
        k = prop.key(s, kops) if kops else None
        if k is not None:
            keys.setdefault((json.dumps(s['config'], sort_keys=True), json.dumps(s['macros']), k), []).append(i)
    obs = mc.run_impl(sessions)
    for s in sessions:
        run.count('explored', 1)
        compare(run, prop, s, preds[s['id']], obs[s['id']], True, 'explored')
    run.traces += len(sessions)
    for ids in keys.values():
        relate(run, prop, ids, sessions, preds, obs)
    for i in random.Random(run.seed).sample(range(len(sessions)), min(4, len(sessions))):
        run.sample({'session': strip(sessions[i]), 'predicted': short(preds[i]), 'observed': short(obs[i].get('ops', obs[i]))})


def last(o):
    o = o['ops'][-1] if 'ops' in o else o
    return json.dumps({k: v for k, v in o.items() if k in ('ok', 'err', 'wref', 'wcmd', 'panic', 'all')}, sort_keys=True, ensure_ascii=False)


def lastpred(p):
    def noplace(o):
        return {k: v for k, v in o.items() if k not in ('s', 'e')} if 'err' in o else o
    return json.dumps(noplace(p[-1]) if p else None, sort_keys=True)


def relate(run, prop, ids, sessions, preds, obs):
    """Sessions whose last calls have to give the same: where the specification agrees, so must the implementation."""
    cls = {}
    for i in ids:
        if preds[i] and 'skip' not in preds[i][0] and 'new' not in preds[i][0]:
            cls.setdefault(lastpred(preds[i]), []).append(i)
    for js in cls.values():
        if len(js) < 2:
            continue
        run.count('related', len(js))
        ref = min(js, key=lambda i: len(json.dumps(sessions[i])))
        for j in js:
            a, b = noplaces(last(obs[ref])), noplaces(last(obs[j]))
            if a != b:
                run.violation('these have to give the same: %s gives %s and %s gives %s' % (
                    json.dumps(strip(sessions[ref]), ensure_ascii=False)[:400], a[:500], json.dumps(strip(sessions[j]), ensure_ascii=False)[:400], b[:500]),
                    {'session': strip(sessions[j]), 'other': strip(sessions[ref])})
                break


def noplaces(x):
    return x


def strip(s):
    return {k: v for k, v in s.items() if v and k != 'id'}


def short(o):
    t = json.dumps(o, ensure_ascii=False)
    return t if len(t) < 600 else t[:600] + '...'


DUMP = os.environ.get('VERIF_DUMP')      # for mutation analysis: keep what was compared


def compare(run, prop, s, pred, obs, strict, part):
    if DUMP:
        with open(os.path.join(DUMP, run.pid + '.ndjson'), 'a', encoding='utf8') as f:
            f.write(json.dumps([strict, part, strip(s), pred], ensure_ascii=False) + '\n')
    d = prop.view.diff_session(pred, obs, strict)
    if d:
        run.violation('call %d: %s' % d, {'session': strip(s), 'predicted': pred, 'observed': obs, 'part': part})


# ---------------------------------------------------------------------------- sessions from outside

def replay(run, prop, parts):
    """Sessions (without ids) of several parts (name, strict, sessions): the specification predicts, the implementation is compared."""
    every = [(part, strict, s) for part, strict, ss in parts for s in ss if gen.usable(json.dumps(s, ensure_ascii=False))]
    if not every:
        return {}, {}, []
    sessions = [dict(s, id=i) for i, (_, _, s) in enumerate(every)]
    r = mc.run_spec(sessions)
    run.states += r.distinct
    run.transitions += r.states
    obs = mc.run_impl(sessions)
    at = {}
    for s, (part, strict, _) in zip(sessions, every):
        if s['id'] not in r.preds:
            raise Broken('no prediction for %r' % s)
        compare(run, prop, s, r.preds[s['id']], obs[s['id']], strict, part)
        run.count(part, 1)
        at.setdefault(part, []).append(s['id'])
    run.traces += len(sessions)
    rnd = random.Random(run.seed)
    for part, ids in at.items():
        for i in rnd.sample(ids, min(2, len(ids))):
            run.sample({'session': strip(sessions[i]), 'predicted': short(r.preds[i]), 'part': part})
    return r.preds, obs, sessions


def core(run, prop):
    explore(run, prop, prop.scopes(run.deep), prop.__class__.__name__ + '.cfg')
    n = prop.sessions[run.deep]
    rnd = random.Random(run.seed * 1000003 + 17)
    g = gen.Gen(rnd, focus=prop.focus, envs=prop.envs, stray=.08)
    h = gen.Gen(random.Random(run.seed * 7919 + 5))
    pr = prop.pairs(random.Random(run.seed * 31 + 3), 3000 if run.deep else 250)
    parts = [('fixed', True, prop.fixed()),
             ('random', True, [g.session(0, rnd.randint(1, prop.nops), prop.depth) for _ in range(n)]),
             ('general', False, [h.session(0, h.r.randint(1, 3)) for _ in range(prop.general[run.deep])]),
             ('nested', True, prop.nested(random.Random(run.seed * 101 + 7), prop.nests[run.deep])),
             ('commands', True, prop.swept()),
             ('mixed', True, prop.mixed(random.Random(run.seed * 211 + 9), prop.mix[run.deep])),
             ('pairs', True, [dict(s, group=g) for g, s in pr])]
    preds, obs, ss = replay(run, prop, parts)
    groups = {}
    for s in ss:
        if 'group' in s:
            groups.setdefault(s['group'], []).append(s['id'])
    byid = {s['id']: s for s in ss}
    for ids in groups.values():
        relate(run, prop, ids, byid, preds, obs)
