"""pydriver.py MODULE JOBS OUT - runs calls against the Python module, in as many threads as a job has."""
import importlib.util, itertools, json, sys, threading

spec = importlib.util.spec_from_file_location('_math_core_rust', sys.argv[1])
mod = importlib.util.module_from_spec(spec)
spec.loader.exec_module(mod)
sys.setswitchinterval(1e-6)


def call(conv, c):
    if c[0] == 'reset':
        conv.reset_global_state()
        return []
    if c[0] == 'all':
        return conv.convert_all([(s, b) for s, b in c[1]])
    return [(conv.convert_with_global_state if c[0] == 'global' else conv.convert_with_local_state)(c[1], displaystyle=c[2])]


def guarded(f):
    try:
        return {'how': 'returned', 'what': f()}
    except BaseException as e:
        return {'how': type(e).__name__, 'what': [str(e)]}


def run(job):
    made = guarded(lambda: [mod.LatexToMathML(**job['options'])])
    if made['how'] != 'returned':
        return {'new': made}
    conv, clock = made['what'][0], itertools.count()
    out = [[] for _ in job['threads']]
    start = threading.Barrier(len(job['threads']))

    def work(i):
        if len(job['threads']) > 1:
            start.wait()
        for c in job['threads'][i]:
            a = next(clock)
            r = guarded(lambda: call(conv, c))
            out[i].append(dict(r, **{'from': a, 'to': next(clock)}))
    if len(job['threads']) == 1:
        work(0)
    else:
        ts = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(len(job['threads']))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    return {'threads': out}


threading.stack_size(64 << 20)
with open(sys.argv[2], encoding='utf8') as f, open(sys.argv[3], 'w', encoding='utf8') as g:
    for l in f:
        j = json.loads(l)
        g.write(json.dumps(dict(run(j), id=j['id'])) + '\n')
        g.flush()
