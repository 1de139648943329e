"""Machinery shared by all checks: building the driver, running TLC,
generating operation sequences from specifications, judging traces."""
import atexit, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
REPO = '/repo'
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
THOROUGH = TIER == 'thorough'
T0 = time.time()


class CheckError(Exception):
    """The check itself failed: no verdict."""


class Crash(Exception):
    """The code under test crashed the driver."""

    def __init__(self, suite, props, err, ops):
        Exception.__init__(self, 'crash in suite ' + suite)
        self.suite, self.props, self.err, self.ops = suite, set(props), err, ops


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='coniksverif-')
        if not os.environ.get('VERIF_KEEP'):
            atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, file=sys.stderr, flush=True)


def goenv():
    e = dict(os.environ)
    gobin = '/opt/veriftools/go1.23.12/bin'
    e.update(HOME='/root', GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod',
             GOCACHE='/root/.cache/go-build', GOTOOLCHAIN='local', GOWORK='off',
             GO111MODULE='on', GOPROXY='off', GOFLAGS='-mod=readonly', GOSUMDB='off')
    e['PATH'] = gobin + ':' + e.get('PATH', '/usr/bin:/bin')
    return e


def ensure_gomod():
    # the repository has no go.mod of its own (see /opt/vp/env.sh)
    for f in ('go.mod', 'go.sum'):
        if not os.path.exists(os.path.join(REPO, f)):
            src = os.path.join('/opt/vp/mod', f)
            if not os.path.exists(src):
                src = os.path.join(VERIF, 'harness', 'repo.' + f)
            shutil.copy(src, os.path.join(REPO, f))


def sh(cmd, timeout, env=None, cwd=None, stdin=None):
    """Runs a command in its own process group; returns (rc, out, err)."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         env=env, cwd=cwd, start_new_session=True, text=True, errors='replace')
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        return -999, out, err


_drv = {}


def driver(race=False):
    """Builds the driver against /repo's working tree."""
    if race not in _drv:
        ensure_gomod()
        out = os.path.join(scratch(), 'drv-race' if race else 'drv')
        cmd = ['go', 'build', '-o', out] + (['-race'] if race else []) + ['.']
        rc, o, e = sh(cmd, 600, goenv(), os.path.join(VERIF, 'harness'))
        if rc != 0:
            raise CheckError('cannot build the driver:\n' + o + e)
        log('driver built', 'race' if race else '')
        _drv[race] = out
    return _drv[race]


def run_driver(suite, ops, race=False, timeout=600, extra=(), tag='', crash=()):
    """Performs ops on the real code; returns (trace path, number of events, stderr, rc)."""
    exe = driver(race)
    base = os.path.join(scratch(), suite + tag)
    inp, outp = base + '.ops', base + '.trace'
    with open(inp, 'w') as f:
        for o in ops:
            f.write(json.dumps(o) + '\n')
    tmp = os.path.join(scratch(), 'work-' + suite + tag)
    os.makedirs(tmp, exist_ok=True)
    env = goenv()
    env['TMPDIR'] = tmp
    cmd = [exe, suite, '-in', inp, '-out', outp, '-seed', str(SEED), '-tier', TIER, '-scratch', tmp] + list(extra)
    rc, o, e = sh(cmd, timeout, env, cwd=tmp)
    if rc not in (0, 3, -9, -999) and crash:
        # the code under test took the whole process down (stack overflow, ...)
        raise Crash(suite, crash, e, ops)
    if rc != 0:
        raise CheckError('driver %s failed (rc %s):\n%s\n%s' % (suite, rc, o[-2000:], e[-6000:]))
    n = sum(1 for _ in open(outp))
    log('driver', suite, len(ops), 'operations', n, 'events')
    return outp, n, e


TLC_CP = '/opt/veriftools/tla/tla2tools.jar'


def tlc(module, cfg, workers=8, timeout=600, env=None, extra=(), depth_dir=None):
    e = dict(os.environ)
    e.update(env or {})
    meta = tempfile.mkdtemp(prefix='tlc', dir=scratch())
    cmd = ['tlc', '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE', '-config', cfg] + list(extra) + [module]
    rc, out, err = sh(cmd, timeout, e, cwd=SPEC)
    shutil.rmtree(meta, True)
    if rc == -999:
        raise CheckError('TLC timed out on %s' % module)
    return rc, out + err


def tlc_counts(out):
    m = re.findall(r'([\d,]+) states generated.*?([\d,]+) distinct states found', out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(g.replace(',', '')), int(d.replace(',', ''))


def model_check(module, cfg=None, workers=8, timeout=800, extra=()):
    """Exhaustive model check; an error is an error of the model, never a violation."""
    cfg = cfg or module.replace('.tla', '.cfg')
    t = time.time()
    rc, out = tlc(module, cfg, workers, timeout, extra=extra)
    if rc != 0 or 'No error has been found' not in out:
        i = out.find('Error:')
        raise CheckError('model check of %s failed:\n%s' % (module, out[max(i, 0):][:4000]))
    g, d = tlc_counts(out)
    log('model check', module, cfg, 'states', d, 'transitions', g)
    return dict(spec=module, config=cfg, distinct_states=d, transitions=g, wall_s=round(time.time() - t, 1)), out


def model_refuted(module, cfg, prop, timeout=300):
    """Negative control: the model without the mechanism must violate prop."""
    rc, out = tlc(module, cfg, 8, timeout)
    if not re.search('(Invariant|[Pp]roperty) %s is violated' % prop, out):
        raise CheckError('the model %s/%s should violate %s' % (module, cfg, prop))
    g, d = tlc_counts(out)
    log('negative control', module, cfg)
    return dict(spec=module, config=cfg + ' (negative control: violates %s)' % prop, distinct_states=d, transitions=g)


def linearize(module, trace, n, timeout=700):
    """Searches, for every history of a trace, an order that explains it.
    Returns the histories that have none, with the position reached."""
    t = time.time()
    rc, out = tlc(module, module.replace('.tla', '.cfg'), 8, timeout, env=dict(TRACE=trace))
    if rc != 0 or 'No error has been found' not in out:
        i = out.find('Error:')
        raise CheckError('linearization with %s failed:\n%s' % (module, out[max(i, 0):][:4000]))
    done = {int(f[0]) for f in printed(out, 'DONE')}
    at = {}
    for f in printed(out, 'AT'):
        at[int(f[0])] = max(at.get(int(f[0]), 0), int(f[1]))
    g, d = tlc_counts(out)
    evs = load_trace(trace)
    bad = []
    for i, e in enumerate(evs, 1):
        if e['ev'] == 'Conc' and i not in done:
            p = at.get(i, 0)
            op = e['ops'][-e['seq'][p - 1] - 1] if p and e['seq'][p - 1] < 0 else {}
            bad.append(Bad(i, {'S01'}, 'served one at a time', 'some order of the requests', 'none beyond ' + json.dumps(op)[:700]))
    log('linearized', module, len(done), 'histories,', len(bad), 'without an order')
    return bad, dict(spec=module, events=n, states=d, wall_s=round(time.time() - t, 1))


def unquote(line):
    # PrintT prints a string value as "...", with \" and \\ escaped
    if line.startswith('"') and line.endswith('"'):
        line = line[1:-1].replace('\\"', '"').replace('\\\\', '\\').replace('\\t', '\t').replace('\\n', '\n')
    return line


def printed(out, tag):
    for line in out.splitlines():
        if line.startswith('"' + tag) or line.startswith(tag):
            yield unquote(line).split('\t')[1:]


def simulate(module, cfg, num, depth, timeout=300, extra=(), env=None):
    """Random behaviours of the specification: lists of operations."""
    rc, out = tlc(module, cfg, 1, timeout, env=env,
                  extra=['-simulate', 'num=%d' % num, '-depth', str(depth), '-seed', str(SEED)] + list(extra))
    res, seen = [], set()
    for f in printed(out, 'HIST'):   # TLC may print a last state more than once
        h = json.loads(f[0])
        k = json.dumps(h[:-1])
        if k not in seen:
            seen.add(k)
            res.append(h)
    if not res:
        raise CheckError('simulation of %s gave nothing:\n%s' % (module, out[-3000:]))
    log('simulated', module, len(res), 'behaviours')
    return res


class Bad:
    def __init__(self, line, props, field, exp, obs):
        self.line, self.props, self.field, self.exp, self.obs = line, props, field, exp, obs

    def __repr__(self):
        return 'event %d %s: expected %s, observed %s' % (self.line, self.field, self.exp, self.obs)


def validate(module, trace, n, cfg=None, workers=8, timeout=700, offset=0, env=None):
    """Validates a recorded trace against a trace specification.
    Returns the mismatches, as judged by the specification."""
    cfg = cfg or module.replace('.tla', '.cfg')
    t = time.time()
    e = dict(env or {}, TRACE=trace)
    rc, out = tlc(module, cfg, workers, timeout, env=e)
    if rc != 0 or 'No error has been found' not in out:
        keep = '\n'.join(x for x in out.splitlines() if not x.startswith(('Pars', 'Lint', 'Semantic')))
        i = keep.find('Error:')
        raise CheckError('trace validation with %s failed:\n%s\n...\n%s' % (module, keep[i:i + 2500], keep[-1500:]))
    g, d = tlc_counts(out)
    if offset is not None and d != n + offset:
        raise CheckError('trace validation with %s stopped early: %d of %d events' % (module, d, n))
    bad, seen = [], set()
    for f in printed(out, 'BAD'):
        if tuple(f) in seen:
            continue
        seen.add(tuple(f))
        bad.append(Bad(int(f[0]), set(json.loads(f[1])), f[2], f[3], f[4]))
    bad.sort(key=lambda b: b.line)
    log('validated', module, n, 'events', len(bad), 'mismatches')
    return bad, dict(spec=module, events=n, states=d, wall_s=round(time.time() - t, 1))


def load_trace(path):
    return [json.loads(x) for x in open(path)]


class Check:
    """Collects the results of one property's check."""

    def __init__(self, prop, level='model_checking'):
        self.prop, self.level = prop, level
        self.models, self.validations, self.samples = [], [], []
        self.states = self.transitions = self.traces = self.events = 0
        self.bad = []       # (Bad, context)
        self.assumptions, self.notes = [], {}

    def model(self, info):
        self.models.append(info)
        self.states += info['distinct_states']
        self.transitions += info['transitions']

    def trace(self, bad, info, path, boundary=('New',), other=False):
        """Adds a validated trace file.  boundary: events that start a new history."""
        evs = load_trace(path)
        starts = [i for i, e in enumerate(evs) if e['ev'] in boundary] or [0]
        self.validations.append(dict(info, histories=len(starts)))
        self.traces += len(starts)
        self.events += len(evs)
        if evs and len(self.samples) < 4:
            s = starts[min(len(starts) - 1, len(starts) // 2)]
            nxt = [x for x in starts if x > s]
            self.samples.append(dict(trace=os.path.basename(path),
                                     history=[brief(e) for e in evs[s:(nxt[0] if nxt else len(evs))][:12]]))
        for b in bad:
            if self.prop in b.props:
                s = max([x for x in starts if x < b.line] or [0])
                self.bad.append((b, evs[s:b.line]))

    def crash(self, c):
        if self.prop not in c.props:
            raise CheckError('the driver crashed in suite %s:\n%s' % (c.suite, c.err[-3000:]))
        self.bad.append((Bad(0, c.props, 'crash', 'no crash', c.err[:3000]), c.ops[-50:]))

    def finish(self):
        known = load_known(self.prop)
        viol, knowns = [], {}
        for b, ctx in self.bad:
            k = match_known(known, b, ctx)
            if k:
                knowns.setdefault(k, []).append(b)
            else:
                viol.append((b, ctx))
        for k in knowns:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces,
                   events_validated=self.events,
                   models=self.models, validations=self.validations,
                   samples=self.samples or ['none'])
        cov.update(self.notes)
        ev = dict(property=self.prop, tier=TIER, seed=SEED, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - T0, 1), violations=len(viol))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if viol:
            d = os.path.join(VERIF, 'replays')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, '%s-%d.json' % (self.prop, SEED))
            b, ctx = viol[0]
            with open(path, 'w') as f:
                json.dump(dict(property=self.prop, seed=SEED, tier=TIER,
                               mismatch=dict(field=b.field, expected=b.exp, observed=b.obs, event=b.line),
                               history=ctx[-200:],
                               all=[repr(x[0]) for x in viol[:200]]), f, indent=1)
            for b, _ in viol[:5]:
                print('  %s' % b)
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            return 1
        print('OK property=%s states=%d transitions=%d traces=%d events=%d' % (
            self.prop, self.states, self.transitions, self.traces, self.events))
        return 0


def brief(e):
    s = json.dumps(e)
    return json.loads(s) if len(s) < 1500 else s[:1500]


def load_known(prop):
    """known-findings.jsonl: findings that are recorded instead of repaired."""
    out = []
    p = os.path.join(VERIF, 'known-findings.jsonl')
    if os.path.exists(p):
        for x in open(p):
            x = x.strip()
            if x.startswith('{'):
                k = json.loads(x)
                if k.get('property') == prop and k.get('status') == 'known':
                    out.append(k)
    return out


def match_known(known, b, ctx):
    for k in known:
        if k['field'] == b.field and k.get('observed', b.obs) == b.obs and k['call'] == (ctx[-1].get('ev') if ctx else None):
            return k['what']
    return None


def edges(out):
    """Transitions printed by a model with PrintEdges: (from, to, op)."""
    res, memo = [], {}

    def norm(x):   # TLC does not order the fields of equal records equally
        if x not in memo:
            memo[x] = json.dumps(json.loads(x), sort_keys=True)
        return memo[x]
    for f in printed(out, 'EDGE'):
        res.append((norm(f[0]), norm(f[1] or f[0]), json.loads(f[2])))
    res.sort(key=lambda x: (x[0], x[1], json.dumps(x[2], sort_keys=True)))
    return res


def cover_paths(es, inits, rnd, max_steps, max_len=60):
    """Paths from the initial states covering the transitions of a graph: each
    path always continues to a nearest uncovered transition (stops after
    max_steps steps).  Returns paths of (from, op, to), the number of covered
    transitions and the number of all transitions."""
    out, total = {}, 0
    for a, b, op in es:
        out.setdefault(a, {})[json.dumps(op, sort_keys=True)] = (op, b)
    fresh = {}
    for a in out:
        ks = sorted(out[a])
        rnd.shuffle(ks)
        fresh[a] = ks
        total += len(ks)
    succ = {a: sorted({b for _, b in out[a].values()}) for a in out}
    via = {a: {b: k for k, (_, b) in sorted(out[a].items())} for a in out}
    inits = sorted(inits)
    rnd.shuffle(inits)
    covered, steps, paths = 0, 0, []

    def nearest(src, limit):
        # the states on a shortest way to a state with uncovered transitions
        prev, todo = {src: None}, [src]
        while todo and limit > 0:
            nxt = []
            for a in todo:
                if fresh.get(a):
                    way = []
                    while a is not None:
                        way.append(a)
                        a = prev[a]
                    return way[::-1]
                for b in succ.get(a, ()):
                    if b not in prev:
                        prev[b] = a
                        nxt.append(b)
            rnd.shuffle(nxt)
            todo = nxt
            limit -= 1
        return None

    dead = set()
    while steps < max_steps and len(dead) < len(inits):
        cur = rnd.choice([x for x in inits if x not in dead])
        init, path = cur, []
        while len(path) < max_len:
            way = nearest(cur, max_len - len(path))
            if way is None:
                break
            for b in way[1:]:
                k = via[cur][b]
                path.append((cur, out[cur][k][0], b))
                cur = b
            k = fresh[cur].pop()
            covered += 1
            path.append((cur,) + out[cur][k])
            cur = out[cur][k][1]
        if not path:
            dead.add(init)
            continue
        steps += len(path)
        paths.append(path)
    return paths, covered, total


def simulate_cases(module, cfg, timeout=300):
    """Test cases that are the initial states of a module."""
    rc, out = tlc(module, cfg, 8, timeout, extra=['-seed', str(SEED)])
    if 'No error has been found' not in out:
        raise CheckError('case generation with %s failed:\n%s' % (module, out[-3000:]))
    res = [json.loads(f[0]) for f in printed(out, 'HIST')]
    log('cases', module, len(res))
    return res
