"""Running the specification and the implementation on the same sessions, and comparing them."""
import glob, json, os, resource, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from xml.parsers import expat


VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(VERIF, 'build')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CORES = os.cpu_count() or 4


class Broken(Exception):
    """The machinery (not the code under test) failed."""


def scratch(prefix='run'):
    os.makedirs(BUILD, exist_ok=True)
    return tempfile.mkdtemp(prefix=prefix + '-', dir=BUILD)


# ---------------------------------------------------------------------------- building

def cargo_env():
    e = dict(os.environ)
    e.update(HOME='/root', PATH='/root/.cargo/bin:' + e.get('PATH', ''), CARGO_NET_OFFLINE='true',
             RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu')
    return e


def cargo(args, cwd, what, extra=None):
    env = cargo_env()
    env.update(extra or {})
    p = subprocess.run(['cargo'] + args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise Broken('building %s failed:\n%s' % (what, p.stdout[-3000:]))


_built = {}


def harness():
    if 'h' not in _built:
        t = os.path.join(BUILD, 'harness')
        cargo(['build', '--offline', '--locked', '--quiet', '--target-dir', t], os.path.join(VERIF, 'harness'), 'the harness')
        _built['h'] = os.path.join(t, 'debug', 'mc-harness')
    return _built['h']


def cli():
    if 'c' not in _built:
        t = os.path.join(BUILD, 'cli')
        cargo(['build', '--offline', '--quiet', '-p', 'math-core-cli', '--target-dir', t], REPO, 'the command line tool')
        _built['c'] = os.path.join(t, 'debug', 'mathcore')
    return _built['c']


def python_module():
    """The extension module, to be loaded by its path."""
    if 'p' not in _built:
        t = os.path.join(BUILD, 'py')
        cargo(['build', '--offline', '--quiet', '-p', 'math-core-python', '--target-dir', t], REPO, 'the Python module')
        _built['p'] = os.path.join(t, 'debug', 'libmath_core_python.so')
    return _built['p']


# ---------------------------------------------------------------------------- the implementation

PATIENCE = 60           # seconds without a further session
MEMORY = 6 << 30        # bytes


def _limits(memory=None):
    resource.setrlimit(resource.RLIMIT_AS, (memory or MEMORY,) * 2)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def _watch(cmd, out, stack=None, memory=None):
    """Run cmd, which appends to the file out while it makes progress. None, or why it failed."""
    if os.path.exists(out):
        os.unlink(out)
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=lambda: _limits(memory),
                         env=dict(os.environ, MC_STACK=str(stack)) if stack else None)
    size, since = -1, time.time()
    while True:
        try:
            rc = p.wait(.2 if size >= 0 else .02)
            return None if rc == 0 else 'exit status %d' % rc
        except subprocess.TimeoutExpired:
            pass
        n = os.path.getsize(out) if os.path.exists(out) else 0
        if n != size:
            size, since = n, time.time()
        elif time.time() - since > PATIENCE:
            p.kill()
            p.wait()
            return 'no result in %d s' % PATIENCE


def _run_harness_part(cmd, sessions, d, i, **limits):
    a, b = os.path.join(d, 'in%d' % i), os.path.join(d, 'out%d' % i)
    out, crashes = [], 0
    todo = sessions
    while todo:
        with open(a, 'w', encoding='utf8') as f:
            for s in todo:
                f.write(json.dumps(s) + '\n')
        why = _watch(cmd(a, b), b, **limits)
        got = []
        if os.path.exists(b):
            with open(b, encoding='utf8') as f:
                got = [json.loads(l) for l in f if l.endswith('\n')]
        out += got
        if why is None and len(got) == len(todo):
            break
        # the process died on the session after the last one it reported
        out.append({'id': todo[len(got)].get('id'), 'crash': why or 'it ended early'})
        todo = todo[len(got) + 1:]
        crashes += 1
        if crashes >= 3:
            out += [{'id': s.get('id'), 'crash': 'not run, after three sessions on which the process died'} for s in todo]
            break
    return out


def run_impl(sessions, workers=CORES, **limits):
    """Sessions (dicts with distinct ids) -> {id: observation}"""
    return _run_parts(lambda a, b: [harness(), a, b], sessions, workers, **limits)


def run_python(jobs, workers=CORES):
    """Jobs for lib/pydriver.py -> {id: observation}"""
    driver = os.path.join(VERIF, 'lib', 'pydriver.py')
    return _run_parts(lambda a, b: [sys.executable, '-I', driver, python_module(), a, b], jobs, workers)


def _run_parts(cmd, sessions, workers, **limits):
    cmd('', '')
    d = scratch('impl')
    try:
        n = max(1, min(workers, (len(sessions) + 63) // 64))
        parts = [sessions[i::n] for i in range(n)]
        with ThreadPoolExecutor(n) as ex:
            rs = list(ex.map(lambda x: _run_harness_part(cmd, x[1], d, x[0], **limits), enumerate(parts)))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return {o['id']: o for r in rs for o in r}


# ---------------------------------------------------------------------------- the specification

def spec_session(s):
    """The form of a session which the specification reads: characters instead of strings."""
    c = s.get('config', {})
    def op(o):
        if o['op'] == 'all':
            return {'op': 'all', 'items': [{'src': list(i['src']), 'block': i['block']} for i in o['items']]}
        if o['op'] == 'reset':
            return {'op': 'reset'}
        return {'op': o['op'], 'src': list(o['src']), 'block': o['block']}
    return {'id': s['id'],
            'cfg': {'ign': c.get('ignore-unknown-commands', False), 'glob': c.get('global-group', False),
                    'max': c.get('max-expansions', 1000), 'pre': c.get('id-prefix', ''),
                    'uni': c.get('unicode-substitution', 'conventional') == 'conventional',
                    'unrel': c.get('allow-unreliable-rendering', False)},
            'macros': [[list(n), list(b)] for n, b in s.get('macros', [])],
            'ops': [op(o) for o in s['ops']]}


class TlcResult:
    def __init__(self):
        self.preds, self.states, self.distinct, self.lines, self.violation = {}, 0, 0, [], None


def tlc(module, config, env, workers=1, timeout=3000, heap='3g', cwd=None, extra=(), sink=None):
    """Run TLC; predictions that it prints (lines `"@@..."`) are collected."""
    d = scratch('tlc')
    r = TlcResult()
    e = dict(os.environ)
    e.update(env)
    spec = os.path.join(VERIF, 'spec')
    e['SPEC_DIR'] = spec
    cmd = ['java', '-XX:+UseParallelGC', '-Xss64m', '-Xmx' + heap, '-Dfile.encoding=UTF-8', '-Dstdout.encoding=UTF-8',
           '-Djava.io.tmpdir=' + d, '-Dtlc2.tool.queue.IStateQueue=StateDeque', '-cp', JAR, 'tlc2.TLC', '-metadir', os.path.join(d, 'm'), '-noGenerateSpecTE',
           '-workers', str(workers), '-config', config] + list(extra) + [module]
    try:
        p = subprocess.Popen(cmd, cwd=cwd or spec, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        tail = []
        import threading
        killer = threading.Timer(timeout, p.kill)
        killer.start()
        for raw in p.stdout:
            l = raw.decode('utf8', 'replace').rstrip('\n')
            if l.startswith('"@@'):
                o = json.loads(json.loads(l.replace('\t', '\\t'))[2:]) if '\\' in l else json.loads(l[3:-1])
                if sink:
                    sink(o)
                else:
                    r.preds[o['id']] = o['outs']
            else:
                tail.append(l)
                if ' states generated, ' in l and 'distinct states found' in l:
                    w = l.replace(',', '').split()
                    try:
                        r.states, r.distinct = int(w[0]), int(w[3])
                    except ValueError:
                        pass
                if 'is violated' in l and r.violation is None:
                    r.violation = l
                if len(tail) > 4000:
                    del tail[:2000]
        rc = p.wait()
        killer.cancel()
        r.lines = tail
        if rc != 0 and not (r.violation and rc in (10, 11, 12, 13)):
            i = next((k for k, l in enumerate(tail) if l.startswith('Error:')), max(0, len(tail) - 30))
            raise Broken('TLC failed (%d) on %s:\n%s' % (rc, module, '\n'.join(tail[i:i + 40])))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return r


def run_spec(sessions, workers=CORES, module='MCReplay.tla', config='MCReplay.cfg', timeout=3000):
    """Sessions -> TlcResult with predictions {id: outs}"""
    d = scratch('jobs')
    total = TlcResult()
    try:
        n = max(1, min(workers, (len(sessions) + 39) // 40))
        def part(i):
            f = os.path.join(d, 'jobs%d.json' % i)
            with open(f, 'w', encoding='utf8') as h:
                json.dump([spec_session(s) for s in sessions[i::n]], h)
            return tlc(module, config, {'JOBS': f}, 1, timeout)
        with ThreadPoolExecutor(n) as ex:
            for r in ex.map(part, range(n)):
                total.preds.update(r.preds)
                total.states += r.states
                total.distinct += r.distinct
                total.violation = total.violation or r.violation
                if r.violation:
                    total.lines = r.lines
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return total


# ---------------------------------------------------------------------------- MathML

class NotXml(Exception):
    pass


def parse(xml):
    """A string -> its one element [n, a (dict), x (text), c]. Raises NotXml."""
    root, stack = [], []
    def start(n, a):
        e = {'n': n, 'a': dict(a), 'x': '', 'c': []}
        (stack[-1]['c'] if stack else root).append(e)
        stack.append(e)
    def end(n):
        e = stack.pop()
        if e['c'] and not e['x'].strip(' \t\r\n'):
            e['x'] = ''
    def data(s):
        stack[-1]['x'] += s
    p = xml_parser()
    p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = start, end, data
    p.ordered_attributes = False
    try:
        p.Parse(xml.encode('utf8') if isinstance(xml, str) else xml, True)
    except Exception as e:
        raise NotXml(str(e))
    if len(root) != 1:
        raise NotXml('not one element')
    return root[0]


def xml_parser():
    return expat.ParserCreate('utf-8')


def pred_tree(e):
    """A tree as the specification writes it, in the form of `parse`."""
    return {'n': e['n'], 'a': {k: v for k, v in e['a']}, 'x': e['x'], 'c': [pred_tree(c) for c in e['c']]}


def show(e):
    return '<%s%s>%s%s</%s>' % (e['n'], ''.join(' %s="%s"' % kv for kv in sorted(e['a'].items())), e['x'],
                                ''.join(show(c) for c in e['c']), e['n'])


def compare(pred, obs, mathattrs=None):
    """One prediction and one observation. None if they agree, else a short text."""
    if 'skip' in pred:
        return None
    if 'panic' in obs:
        return 'panic: ' + str(obs['panic'])
    if 'all' in pred:
        if 'all' not in obs or len(obs['all']) != len(pred['all']):
            return 'a batch was expected'
        for i, (p, o) in enumerate(zip(pred['all'], obs['all'])):
            d = compare(p, o)
            if d:
                return 'item %d: %s' % (i, d)
        return None
    if 'done' in pred:
        return None if 'ok' in obs else 'reset failed'
    if 'err' in pred:
        if 'err' not in obs:
            return 'expected error %r, got output' % pred['err']
        if pred['err'] != obs['err']:
            return 'expected error %r, got error %r' % (pred['err'], obs['err'])
        if (pred['s'], pred['e']) != (obs['start'], obs['end']):
            return 'error %r: expected at %d..%d, got %d..%d' % (pred['err'], pred['s'], pred['e'], obs['start'], obs['end'])
        if 'idx' in pred and pred['idx'] != obs.get('idx'):
            return 'expected macro %d, got %r' % (pred['idx'], obs.get('idx'))
        return None
    if 'err' in obs:
        return 'expected output, got error %r' % obs['err']
    try:
        root = parse(obs['ok'])
    except NotXml as e:
        return 'not XML: %s' % e
    want = ''.join(show(pred_tree(e)) for e in pred['ok'])
    got = ''.join(show(c) for c in root['c'])
    if want != got:
        return 'expected %s got %s' % (want, got)
    for k in ('wref', 'wcmd'):
        if pred[k] != obs[k]:
            return '%s: expected %s' % (k, pred[k])
    return None


def compare_session(pred, obs):
    """None, or (index, text)"""
    if 'crash' in obs:
        return (0, 'process died: %s' % obs['crash'])
    if pred and 'skip' in pred[0] and len(pred) == 1:
        return None
    if 'new' in obs:
        if len(pred) != 1 or 'new' not in pred[0]:
            return (0, 'configuration rejected: %r' % obs['new'].get('err', obs['new']))
        d = compare(pred[0]['new'], obs['new'])
        return (0, d) if d else None
    if pred and 'new' in pred[0]:
        return (0, 'configuration accepted, expected error %r' % pred[0]['new']['err'])
    for i, (p, o) in enumerate(zip(pred, obs['ops'])):
        d = compare(p, o)
        if d:
            return (i, d)
    if len(pred) != len(obs['ops']):
        return (0, 'number of outcomes')
    return None
