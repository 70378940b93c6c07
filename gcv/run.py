"""Runs the monitors of one property: run.sh C01 [--replay FILE]"""
import importlib, json, multiprocessing as mp, os, signal, sys, time, traceback, warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('GCV_REPO', '/repo')
CASE_LIMIT = 150
WALL = {'quick': 780, 'thorough': 7200}
MON = None


class _Lines:
    """Which lines of the library were executed (reach of the workload; informative only)."""

    def __init__(self):
        self.hit = set()
        self.root = os.path.join(REPO, 'geocat') + os.sep

    def start(self):
        m = sys.monitoring
        try:
            m.use_tool_id(3, 'gcv')
        except ValueError:
            return
        m.register_callback(3, m.events.LINE, self._line)
        m.set_events(3, m.events.LINE)

    def _line(self, code, line):
        f = code.co_filename
        if f.startswith(self.root):
            self.hit.add((f[len(self.root):], line))
        return sys.monitoring.DISABLE


def _alarm(*_):
    from .core import CaseTimeout
    raise CaseTimeout()


def run_case(mod, name, index, seed, tier):
    from .core import Ctx, Violation, Reject, CaseTimeout
    fn = mod.WORKLOADS[name][0]
    ctx = Ctx(mod.ID, name, index, seed, tier)
    ctx.relayout = getattr(mod, "RELAYOUT", True)
    out = {'workload': name, 'index': index, 'status': 'ok'}
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT)
    t0 = time.time()
    try:
        fn(ctx)
    except Violation as e:
        out.update(status='violation', message=str(e))
    except Reject:
        out.update(status='reject')
    except CaseTimeout:
        out.update(status='timeout', message=f'case exceeded {CASE_LIMIT} s')
    except MemoryError:
        out.update(status='error', message='MemoryError')
    except Exception as e:
        tb = traceback.format_exc()
        if ctx.called:
            # the library returned something the monitor cannot even interpret
            out.update(status='violation',
                       message=f'result of {getattr(ctx, "last_call", "the call")} is not interpretable: '
                               f'{type(e).__name__}: {str(e)[:300]}', trace=tb[-1500:])
        else:
            out.update(status='error', message=tb[-1500:])
    finally:
        signal.alarm(0)
    out.update(classes=list(ctx.classes.items()), events=ctx.events, compared=ctx.compared, finite=ctx.finite, features=ctx.features,
               digest=ctx.digest.hexdigest(), sample=ctx.sample, known=ctx.known, t=time.time() - t0)
    return out


def _work(args):
    mod, jobs, seed, tier = importlib.import_module(args[0]), args[1], args[2], args[3]
    warnings.simplefilter('ignore')
    global MON
    if MON is None:
        MON = _Lines()
        MON.start()
    res = []
    for name, index in jobs:
        r = run_case(mod, name, index, seed, tier)
        res.append(r)
    return res, MON.hit


def load_known(pid):
    keys = {}
    p = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith('#'):
                d = json.loads(line)
                if d.get('status') == 'open' and d['property'] == pid:
                    keys[d['key']] = d['what']
    return keys


def main():
    warnings.simplefilter('ignore')
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in WALL:
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    sys.path.insert(0, REPO)
    try:
        import geocat.comp
        assert os.path.abspath(geocat.comp.__file__).startswith(REPO + os.sep), geocat.comp.__file__
        modname = f'gcv.props.{pid.lower()}'
        mod = importlib.import_module(modname)
    except Exception:
        traceback.print_exc()
        print(f'INCONCLUSIVE property={pid}: cannot import the code or the check')
        sys.exit(2)
    known = load_known(pid)
    if hasattr(mod, 'prepare'):
        mod.prepare()

    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        d = json.load(open(sys.argv[3]))
        r = run_case(mod, d['workload'], d['index'], d['seed'], d['tier'])
        print(json.dumps(r, indent=1, default=str))
        bad = r['status'] == 'violation' or any(k not in known for k, _ in r['known'])
        if bad:
            print(f'VIOLATION property={pid} replay={sys.argv[3]}')
        sys.exit(1 if bad else 0)
    only = sys.argv[3] if len(sys.argv) > 3 and sys.argv[2] == '--only' else None

    scale = float(os.environ.get('GCV_SCALE', '1'))
    jobs = []
    for name, spec in mod.WORKLOADS.items():
        if only and name != only:
            continue
        n = int(spec[1] * getattr(mod, 'QUICK', 4)) if tier == 'quick' and spec[1] > 1 else spec[1] if tier == 'quick' else spec[2]
        n = max(1, int(n * scale)) if n > 1 else n
        jobs += [(name, i) for i in range(n)]
    # deterministic shuffle so that slow workloads spread over the workers
    import random
    random.Random(seed).shuffle(jobs)
    nproc = int(os.environ.get('GCV_PROCS', str(getattr(mod, 'PROCS', os.cpu_count() or 4))))
    size = max(1, min(40, len(jobs) // (nproc * 4) or 1))
    chunks = [(modname, jobs[i:i + size], seed, tier) for i in range(0, len(jobs), size)]
    results, lines, stopped, nviol = [], set(), None, 0
    deadline = t0 + WALL[tier]
    ctxm = mp.get_context('fork')
    if nproc == 1:
        for c in chunks:
            res, hit = _work(c)
            results += res
            lines |= hit
            nviol += sum(r['status'] == 'violation' for r in res)
            if nviol >= 20 or time.time() > deadline:
                stopped = 'violations' if nviol >= 20 else 'wall'
                break
    else:
        pool = ctxm.Pool(nproc)
        try:
            it = pool.imap_unordered(_work, chunks)
            for _ in range(len(chunks)):
                try:
                    res, hit = it.next(timeout=max(1, deadline - time.time()))
                except mp.TimeoutError:
                    stopped = 'wall'
                    break
                results += res
                lines |= hit
                nviol += sum(r['status'] == 'violation' for r in res)
                if nviol >= 20:
                    stopped = 'violations'
                    break
        finally:
            pool.terminate()
            pool.join()
    results.sort(key=lambda r: (r['workload'], r['index']))

    evdir = os.path.join(HERE, 'evidence')
    repdir = os.path.join(evdir, 'replay')
    os.makedirs(repdir, exist_ok=True)
    for f in os.listdir(repdir):
        if f.startswith(pid + '-'):
            os.unlink(os.path.join(repdir, f))
    viol = [r for r in results if r['status'] == 'violation']
    seen_known = {}
    for r in results:
        for k, msg in r['known']:
            if k in known:
                seen_known.setdefault(k, msg)
            else:
                viol.append({**r, 'message': f'[{k}] {msg}', 'status': 'violation'})
    reported = set()
    for r in viol:
        key = (r['workload'], r['message'][:40])
        if key in reported or len(reported) >= 10:
            continue
        reported.add(key)
        path = os.path.join(repdir, f'{pid}-{r["workload"]}-{r["index"]}.json')
        json.dump({'property': pid, 'seed': seed, 'tier': tier, **r}, open(path, 'w'), indent=1, default=str)
        print(f'{pid} {r["workload"]}[{r["index"]}]: {r["message"][:600]}')
        print(f'VIOLATION property={pid} replay={os.path.relpath(path, HERE)}')
    for k, msg in seen_known.items():
        print(f'KNOWN-FINDING: property={pid} {known[k]} [{k}: {msg[:200]}]')

    done = [r for r in results if r['status'] in ('ok', 'violation')]
    calls, observed = {}, {}
    for r in done:
        for k, v in r['events'].items():
            d = observed if ' ' in k else calls
            d[k] = d.get(k, 0) + v
    classes = {}
    for r in done:
        for (f, k, v), n in r['classes']:
            d = classes.setdefault(f, {}).setdefault(k, {})
            d[v] = d.get(v, 0) + n
    classes = {f: {k: dict(sorted(v.items(), key=lambda kv: -kv[1])[:16]) for k, v in d.items()} for f, d in classes.items()}
    feats = {}
    for r in done:
        for k, v in r['features'].items():
            f = feats.setdefault(k, {})
            f[str(v)] = f.get(str(v), 0) + 1
    feats = {k: dict(sorted(v.items(), key=lambda kv: -kv[1])[:25]) for k, v in feats.items()}
    distinct = {(r['workload'], r['digest']) for r in done if r['finite'] > 0}
    per_wl = {}
    for r in results:
        w = per_wl.setdefault(r['workload'], {'cases': 0, 'rejected': 0, 'values_compared': 0, 'finite_values': 0, 'seconds': 0.0})
        w['cases'] += r['status'] in ('ok', 'violation')
        w['rejected'] += r['status'] == 'reject'
        w['values_compared'] += r['compared']
        w['finite_values'] += r['finite']
        w['seconds'] = round(w['seconds'] + r['t'], 3)
    samples = []
    for name in mod.WORKLOADS:
        s = [r['sample'] for r in done if r['workload'] == name and r['sample']][:2]
        samples += [f'{name}: {x}'[:400] for x in s]
    byfile = {}
    for f, _ in lines:
        byfile[f] = byfile.get(f, 0) + 1
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': len(done), 'distinct_nontrivial': len(distinct),
            'rule': mod.RULE + ' A case counts as distinct and non-trivial when the bytes of the inputs it passed '
                    'to the library differ from those of every other case and the oracle compared at least one finite value.',
            'samples': samples,
            'library_calls_observed': calls,
            'other_events_observed': observed,
            'values_compared': sum(r['compared'] for r in done),
            'finite_values_compared': sum(r['finite'] for r in done),
            'workloads': per_wl,
            'input_classes': feats,
            'argument_classes': classes,
            'library_lines_reached': byfile,
            'known_findings_seen': seen_known,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
    }
    json.dump(ev, open(os.path.join(evdir, f'{pid}.json'), 'w'), indent=1, default=str)
    errors = [r for r in results if r['status'] in ('error', 'timeout')]
    print(f'{pid} tier={tier} seed={seed}: {len(done)} executions, {len(distinct)} distinct, '
          f'{sum(r["finite"] for r in done)} finite values compared, {sum(calls.values())} library calls, '
          f'{len(viol)} violations, {len(errors)} errors, {ev["wall_s"]} s')
    if viol:
        sys.exit(1)
    if errors:
        for r in errors[:3]:
            print(f'ERROR {r["workload"]}[{r["index"]}]: {r["message"]}')
        print(f'INCONCLUSIVE property={pid}: {len(errors)} cases could not be judged')
        sys.exit(2)
    if stopped == 'wall':
        print(f'INCONCLUSIVE property={pid}: wall-clock limit')
        sys.exit(2)
    empty = [n for n in mod.WORKLOADS if (not only or n == only) and per_wl.get(n, {}).get('finite_values', 0) == 0]
    if empty:
        print(f'INCONCLUSIVE property={pid}: the monitors of {empty} observed nothing')
        sys.exit(2)
    sys.exit(0)


if __name__ == '__main__':
    main()
