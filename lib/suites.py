"""The suites: for every part of coniks-go, how its specification is model
checked, how operation sequences are derived from it, how they are performed on
the real code and how the recorded trace is validated.  PLAN maps properties to
suites."""
import json, os, random, subprocess
from vlib import *

PLAN = {}


def suite(*props):
    def reg(f):
        for p in props:
            PLAN.setdefault(p, []).append(f)
        return f
    return reg


def pick(quick, thorough):
    return thorough if THOROUGH else quick


# --------------------------------------------------------------------------
# directory

HUGE = 1000000


def dir_probes(st, rnd, n, names):
    """Requests that leave the directory as it is, for a state of the model."""
    cap, cur, tree, tbs, snaps, loaded, pol, ad = st
    eps = sorted(set(list(range(0, cur + 2)) + [HUGE, HUGE + 1]))
    old = loaded[0]
    out = []
    for _ in range(n):
        nm = rnd.choice(names + ['nx', ''] if rnd.random() < 0.2 else names + ['nx'])
        k = rnd.randrange(10)
        ep = lambda: rnd.choice([max(0, old - 1), old, cur, max(0, cur - 1), cur + 1, 0, HUGE, HUGE + 1]
                                if rnd.random() < 0.6 else eps)
        if k < 2:
            out.append(dict(op='Look', n=nm))
        elif k < 5:
            out.append(dict(op='LookEp', n=nm, e=ep()))
        elif k < 7:
            out.append(dict(op='Mon', n=nm, s=ep(), e=ep()))
        elif k < 9:
            out.append(dict(op='Hist', s=ep(), e=ep()))
        else:
            out.append(dict(op='Reg', n=rnd.choice(list(tree) or [nm]) if isinstance(tree, dict) and rnd.random() < .8 else nm,
                            k=rnd.choice(['k1', 'k2']) if isinstance(tree, dict) and nm in tree else ''))
    return out


def fresh_dir(st):
    return st[1] == 0 and not st[2] and st[6] == st[7] == 1


def dir_ops(c):
    rnd = random.Random(SEED)
    info, out = model_check('MCDirectory.tla', pick('MCDirectoryGen.cfg', 'MCDirectoryGen.cfg'))
    c.model(info)
    if THOROUGH:
        info, _ = model_check('MCDirectory.tla', 'MCDirectoryBig.cfg', timeout=1500)
        c.model(info)
    es = edges(out)
    inits = sorted(a for a in {a for a, _, _ in es} if fresh_dir(json.loads(a)))
    paths, cov, total = cover_paths(es, inits, rnd, pick(7000, 60000))
    c.notes['graph_edges'] = total
    c.notes['graph_edges_performed'] = cov
    ops, w = [], 0
    visited = set()
    for p in paths:
        st = json.loads(p[0][0])
        w += 1
        ops.append(dict(op='New', cap=st[0] if st[0] > 1 else rnd.choice([0, 1]), dl=st[6], w=rnd.randrange(40), names=['n1', 'n2', 'nx'], keys=['k1', 'k2']))
        for a, op, b in p:
            ops.append(op)
            if b not in visited or rnd.random() < 0.1:
                visited.add(b)
                sb = json.loads(b)
                for o in dir_probes(sb, rnd, pick(2, 4), ['n1', 'n2']):
                    if o['op'] == 'Reg' and o['k'] and not (isinstance(sb[2], dict) and o['n'] in sb[2]):
                        continue
                    ops.append(o)
    c.notes['graph_states_visited'] = len(visited)
    for h in simulate('SimDirectory.tla', 'SimDirectory.cfg', pick(24, 300), 71):
        h[0].update(w=rnd.randrange(40), names=['n%d' % i for i in range(1, 9)] + ['nx', 'ny'],
                    keys=['k%d' % i for i in range(1, 6)])
        ops += h
    return ops


@suite('D01', 'D02', 'D03', 'D04', 'D05', 'D06', 'D07', 'M03')
def dir_suite(c):
    ops = dir_ops(c)
    path, n, _ = run_driver('dir', ops, crash=['D05'])
    bad, info = validate('DirectoryTrace.tla', path, n)
    c.trace(bad, info, path)
    c.assumptions += ['names and keys are drawn from finite label sets; indices are those of the real VRF',
                      'one directory at a time, requests issued sequentially (concurrency: S01)']


# --------------------------------------------------------------------------
# Merkle tree

def names_of(n, first='n'):
    return ['%s%d' % (first, i) for i in range(1, n + 1)]


@suite('M01', 'M03', 'D01')
def pad_suite(c):
    rnd = random.Random(SEED)
    info, out = model_check('MCPad.tla')
    c.model(info)
    if c.prop == 'M01':
        info, _ = model_check('MerkleAlgo.tla', pick('MerkleAlgo.cfg', 'MerkleAlgoBig.cfg'), timeout=800)
        c.model(info)
    es = edges(out)
    inits = sorted(a for a in {a for a, _, _ in es} if json.loads(a)[3] == 0 and json.loads(a)[1] == 0)
    paths, cov, total = cover_paths(es, inits, rnd, pick(5000, 60000))
    c.notes['pad_edges'], c.notes['pad_edges_performed'] = total, cov
    ops = []
    for p in paths:
        st = json.loads(p[0][0])
        ops.append(dict(op='New', cap=st[0] if st[0] > 1 else rnd.choice([0, 1]), w=rnd.randrange(40), names=['n1', 'n2', 'n3', 'nx'], keys=['k1', 'k2']))
        for a, op, b in p:
            ops.append(op)
            if rnd.random() < 0.3:
                ops.append(dict(op='Look', n=rnd.choice(['n1', 'n2', 'n3', 'nx']), e=rnd.randint(0, json.loads(b)[1])))
        for n in ['n1', 'n2', 'n3', 'nx']:
            ops.append(dict(op='Look', n=n, e=json.loads(p[-1][2])[1]))
    for h in simulate('SimPad.tla', 'SimPad.cfg', pick(16, 150), 91):
        h[0].update(w=rnd.randrange(40), names=names_of(24), keys=names_of(5, 'k'))
        ops += h
    path, n, _ = run_driver('pad', ops, crash=['M01'])
    bad, info = validate('PadTrace.tla', path, n)
    c.trace(bad, info, path)


@suite('M01', 'M03')
def raw_suite(c):
    info, _ = model_check('MCRawTree.tla')
    c.model(info)
    ops = []
    for h in simulate('MCRawTree.tla', 'SimRawTree.cfg', pick(30, 300), 81):
        ops += h
    path, n, _ = run_driver('raw', ops, crash=['M01'])
    bad, info = validate('RawTreeTrace.tla', path, n)
    c.trace(bad, info, path)


@suite('M02')
def proofs_suite(c):
    info, _ = model_check('MCProofs.tla')
    c.model(info)
    if THOROUGH:   # the model can find attacks: without the shape checks it does
        rc, out = tlc('MCProofs.tla', 'MCProofsLoose.cfg')
        if 'OneAnswer is violated' not in out:
            raise CheckError('MCProofsLoose should find a conflict:\n' + out[-2000:])
        c.notes['negative_control'] = 'MCProofsLoose.cfg: conflict found, as expected'
    ops = sorted([h[0] for h in simulate_cases('ProofCases.tla', pick('ProofCases.cfg', 'ProofCasesBig.cfg'))],
                 key=lambda o: json.dumps(o, sort_keys=True))
    path, n, _ = run_driver('proofs', ops, crash=['M02'])
    bad, info = validate('ProofsTrace.tla', path, n, offset=1)
    c.trace(bad, info, path, boundary=('Proof', 'Pair'))
    evs = load_trace(path)
    c.notes['accepted'] = sum(e.get('obs') == 'ok' for e in evs)
    c.notes['rejected'] = sum(e.get('obs') == 'reject' for e in evs)


# --------------------------------------------------------------------------
# client and auditor

def one(out, tag):
    return json.loads(next(iter(printed(out, tag)))[0])


@suite('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07')
def client_suite(c):
    rnd = random.Random(SEED)
    ops = []
    for n in (1, 2):
        info, out = model_check('MCClient.tla', 'MCClientGen%d.cfg' % n, extra=['-seed', str(SEED)])
        c.model(info)
        univ = one(out, 'UNIV')
        probes = {}
        for f in printed(out, 'RESP'):
            r = json.loads(f[0])
            probes.setdefault(r['s'], []).append(r)
        for s in probes:
            probes[s].sort(key=lambda r: json.dumps(r, sort_keys=True))
        every = [r for s in sorted(probes) for r in probes[s]]
        es = edges(out)
        start = sorted(a for a in {a for a, _, _ in es} if json.loads(a)[0] == 1 and
                       not any(json.loads(a)[1].values()) and not any(t['s'] for t in json.loads(a)[2].values()))
        paths, cov, total = cover_paths(es, start, rnd, pick(2500, 20000), max_len=25)
        c.notes['client_edges_%d' % n], c.notes['client_edges_performed_%d' % n] = total, cov
        for p in paths:
            ops.append(dict(op='New', u=univ))
            for a, op, b in p:
                v = json.loads(a)[0]
                for _ in range(pick(1, 2)):
                    ops.append(dict(op='Resp', r=rnd.choice(probes[v])))
                if rnd.random() < .15:
                    k = rnd.randint(1, 3)
                    ops.append(dict(op='Equiv', rng=[dict(s=rnd.randint(1, len(univ)), m='none') for _ in range(k)],
                                    shape=rnd.choice(['whole'] * 3 + ['noresp', 'nilresp', 'nostr', 'nilstr', 'nopol', 'nosigned', 'proof', 'malformed', 'errdir'])))
                ops.append(dict(op='Resp', r=op))
            for _ in range(pick(6, 10)):
                ops.append(dict(op='Resp', r=rnd.choice(every)))
    # the known finding, always
    u1 = json.loads(json.dumps(ops[0]['u']))
    for err in ('ok', 'notfound'):
        ops.append(dict(op='New', u=u1))
        ops.append(dict(op='Resp', r=dict(t='look', n='n1', exp='k1', err=err, shape='whole', s=2, m='polshift', pt=2, pn='n1',
                                          pm='none', vn='n1', vk=1, tb=False, tbs=2, tbn='n1', tbk='', tbm='none')))
    ops.append(dict(op='New', u=u1))
    ops.append(dict(op='Equiv', shape='whole', rng=[dict(s=2, m='polshift')]))
    if THOROUGH and c.prop == 'C02':
        for n in (1, 2):
            info, _ = model_check('MCClient.tla', 'MCClientWide%d.cfg' % n, timeout=1500)
            c.model(info)
    for h in simulate('SimClient.tla', 'SimClient.cfg', pick(60, 800), 62):
        ops += h
    path, n, _ = run_driver('client', ops, crash=['C07'])
    bad, info = validate('ClientTrace.tla', path, n, offset=0)
    c.trace(bad, info, path)
    evs = load_trace(path)
    c.notes['answers_accepted'] = sum(e['ev'] == 'Resp' and e['o']['code'] == 'ok' for e in evs)
    c.notes['answers_refused'] = sum(e['ev'] == 'Resp' and e['o']['code'] != 'ok' for e in evs)


@suite('A01', 'A02')
def audit_suite(c):
    rnd = random.Random(SEED)
    info, out = model_check('MCAudit.tla', extra=['-seed', str(SEED)])
    c.model(info)
    if THOROUGH and c.prop == 'A01':
        info, _ = model_check('MCAudit.tla', 'MCAuditBig.cfg', timeout=1500)
        c.model(info)
    es = edges(out)
    ranges = [json.loads(f[0]) for f in printed(out, 'RANGE')]
    ranges.sort(key=lambda r: json.dumps(r, sort_keys=True))
    univ = one(out, 'UNIV')
    start = sorted(a for a in {a for a, _, _ in es} if not any(x['hist'] for x in json.loads(a)))
    paths, cov, total = cover_paths(es, start, rnd, pick(600, 4000), max_len=8)
    c.notes['audit_edges'], c.notes['audit_edges_performed'] = total, cov
    ops = []
    seen = set()
    for p in paths:
        ops.append(dict(op='New', u=univ))
        for a, op, b in p:
            ops.append(op)
            known = [i + 1 for i, x in enumerate(json.loads(b)) if x['hist']]
            for _ in range(3):
                ops.append(dict(op='Audit', i=rnd.choice(known), shape='whole', rng=rnd.choice(ranges)))
            for _ in range(2):
                ops.append(dict(op='Get', i=rnd.choice([0, 1, 2, 3]), s=rnd.randint(0, 4), e=rnd.choice([0, 1, 2, 3, 4, HUGE])))
            if b not in seen:
                seen.add(b)
                for r in ranges if THOROUGH else rnd.sample(ranges, min(len(ranges), 150)):
                    ops.append(dict(op='Audit', i=rnd.choice(known), shape='whole', rng=r))
    for h in simulate('SimAudit.tla', 'SimAudit.cfg', pick(60, 800), 42):
        ops += h
    ops.append(dict(op='New', u=univ))   # the known finding, always
    ops.append(dict(op='Init', key=1, rng=[dict(s=1, m='none')]))
    ops.append(dict(op='Audit', i=1, shape='whole', rng=[dict(s=3, m='polshift')]))
    path, n, _ = run_driver('audit', ops, crash=['A01'])
    bad, info = validate('AuditTrace.tla', path, n)
    c.trace(bad, info, path)


@suite('C03', 'C01', 'C04', 'C06')
def system_suite(c):
    rnd = random.Random(SEED)
    info, out = model_check('MCSystem.tla')
    c.model(info)
    if THOROUGH and c.prop == 'C03':
        info, _ = model_check('MCSystem.tla', 'MCSystemBig.cfg')
        c.model(info)
    es = edges(out)
    # the view: cap, cur, tree, tbs, snaps, loaded, cl, aud
    start = sorted(a for a in {a for a, _, _ in es} if json.loads(a)[1] == 0 and not json.loads(a)[2] and
                   not any(any(x['keys'].values()) for x in json.loads(a)[6].values()))
    paths, cov, total = cover_paths(es, start, rnd, pick(4000, 40000), max_len=30)
    c.notes['system_edges'], c.notes['system_edges_performed'] = total, cov
    ops = []
    for p in paths:
        st = json.loads(p[0][0])
        ops.append(dict(op='New', cap=st[0], clients=['c1', 'c2'], names=['n1', 'n2'], keys=names_of(4, 'k')))
        ops += [op for _, op, _ in p]
    for h in simulate('SimSystem.tla', 'SimSystem.cfg', pick(60, 600), 91):
        h[0].update(clients=['c1', 'c2', 'c3'], names=names_of(6), keys=names_of(4, 'k'))
        ops += h
    path, n, _ = run_driver('system', ops, crash=['C03'])
    bad, info = validate('SystemTrace.tla', path, n, offset=0)
    c.trace(bad, info, path)


@suite('C07', 'C02')
def bytes_suite(c):
    ops = sorted([h[0] for h in simulate_cases('MalformedCases.tla', pick('MalformedCases.cfg', 'MalformedCasesBig.cfg'))],
                 key=lambda o: json.dumps(o, sort_keys=True))
    tree = lambda a, b, d: dict(n1=a, n2=b, n3=d)
    univ = [dict(ep=0, pe=0, ph=0, tree=tree('', 'k2', ''), share=1, vrf=1, signer=1),
            dict(ep=1, pe=0, ph=1, tree=tree('k1', 'k2', ''), share=2, vrf=1, signer=1)]
    path, n, _ = run_driver('bytes', [dict(op='New', u=univ)] + ops, crash=['C07'])
    bad, info = validate('MalformedTrace.tla', path, n, offset=1)
    c.trace(bad, info, path, boundary=('Bytes',))
    evs = load_trace(path)
    c.notes['byte_strings'] = n
    c.notes['byte_strings_accepted'] = sum(e['o']['code'] == 'ok' for e in evs)
    c.notes['byte_strings_undecodable'] = sum(not e['decodes'] for e in evs)


# --------------------------------------------------------------------------
# the running server

def server_new(op, rnd, names, **kw):
    return dict(op, w=rnd.randrange(40), names=names, keys=['k1', 'k2', 'k3'], **kw)


def histories_of(ops, starts=('New', 'Conc')):
    hs = []
    for o in ops:
        if o['op'] in starts:
            hs.append([])
        hs[-1].append(o)
    return hs


def server_judge(c, hs, tag, retry=2, timeout=700):
    """Performs histories on real servers.  Those with a mismatch are repeated,
    since a machine under load may disturb their timing: a mismatch counts only
    if it comes every time."""
    for t in range(retry + 1):
        path, n, _ = run_driver('server', sum(hs, []), tag='%s%d' % (tag, t), timeout=timeout)
        bad, info = validate('ServerTrace.tla', path, n, offset=0)
        if t == 0:
            first, failing = (info, path, n), hs
        starts = [i for i, e in enumerate(load_trace(path)) if e['ev'] == 'New']
        again = sorted({max(k for k, s in enumerate(starts) if s < b.line) for b in bad if c.prop in b.props})
        if not again or t == retry:
            break
        log('repeating', len(again), 'histories')
        c.notes['repeated_' + tag] = c.notes.get('repeated_' + tag, 0) + len(again)
        hs = [hs[k] for k in again]
    c.trace(bad, info, path)
    if t > 0:
        c.trace([], first[0], first[1])


def sim_server(kinds, num, rnd):
    """num simulated histories of each kind"""
    want = {k: num for k in kinds}
    out = []
    for h in simulate('SimServer.tla', 'SimServer.cfg', num * 8, 26):
        k = h[0]['kind']
        if want.get(k, 0) > 0:
            want[k] -= 1
            out.append([server_new(h[0], rnd, ['n1', 'n2', 'n3', 'nx'], par=24)] + h[1:])
    return out


def server_model(c):
    info, _ = model_check('MCServer.tla')
    c.model(info)


@suite('S02')
def server_perm(c):
    rnd = random.Random(SEED)
    server_model(c)
    info, out = model_check('MCServerPerm.tla', pick('MCServerPerm.cfg', 'MCServerPermBig.cfg'))
    c.model(info)
    es = edges(out)
    inits = sorted(a for a in {a for a, _, _ in es} if not json.loads(a)[0])
    paths, cov, total = cover_paths(es, inits, rnd, pick(12000, 200000), max_len=400)
    c.notes['requests_in_graph'], c.notes['requests_performed'] = total, cov
    hs = []
    for p in paths:
        perms = json.loads(p[0][0])[1]
        new = server_new(dict(op='New', kind='perm', perms=perms, cap=2, dl=60, timer=600), rnd, ['n1', 'nx'], par=8)
        hs.append([new] + [op for _, op, _ in p])
    server_judge(c, hs, 'perm')


@suite('S03')
def server_raw(c):
    rnd = random.Random(SEED)
    server_model(c)
    server_judge(c, sim_server(['raw', 'stop'], pick(24, 90), rnd), 'raw')


@suite('S04')
def server_timer(c):
    rnd = random.Random(SEED)
    server_model(c)
    server_judge(c, sim_server(['timer'], pick(24, 90), rnd), 'timer')


@suite('S05')
def server_reload(c):
    rnd = random.Random(SEED)
    server_model(c)
    server_judge(c, sim_server(['reload'], pick(24, 90), rnd), 'reload')


@suite('S01')
def server_conc(c):
    rnd = random.Random(SEED)
    info, _ = model_check('ServerConc.tla', pick('MCServerConc.cfg', 'MCServerConc.cfg'))
    c.model(info)
    if THOROUGH:
        info, _ = model_check('ServerConc.tla', 'MCServerConcBig.cfg')
        c.model(info)
    for x in ('look', 'upd', 'reg'):
        c.model(model_refuted('ServerConc.tla', 'MCServerConcNo%s.cfg' % x, 'Atomic'))
    hs = [dict(perms=h[0]['perms'], ops=h[1:]) for h in simulate('SimConc.tla', 'SimConc.cfg', pick(90, 400), 65)]

    def program(h, i, **kw):
        cs = sorted({o['c'] for o in h['ops']})
        o = dict(op='Conc', perms=h['perms'], cap=rnd.choice([2, 10, 40]), dl=60, w=rnd.randrange(40),
                 names=['n1', 'n2', 'n3', 'n4', 'n5', 'nx'], keys=['k1', 'k2', 'k3'],
                 clients=[[dict(a=o['a'], q=o['q']) for o in h['ops'] if o['c'] == x] for x in cs])
        # epochs rush by, change in the middle, or do not change
        o.update([dict(timer=0), dict(timer=1, wait=rnd.choice([5, 15, 25])), dict(timer=600)][i % 3])
        o.update(reloads=i % 2, noise=int(i % 4 == 0), **kw)
        return o
    n1 = pick(60, 300)
    for tag, race, part in (('', False, hs[:n1]), ('race', True, hs[n1:])):
        ops = [program(h, i, par=4) for i, h in enumerate(part)]
        path, n, _ = run_driver('server', ops, race=race, tag='conc' + tag)
        bad, info = validate('ConcStatic.tla', path, n, workers=1, offset=None)
        bad2, info2 = linearize('LinTrace.tla', path, n)
        c.trace(bad, info, path, boundary=('Conc',))
        c.trace(bad2, info2, path, boundary=('Conc',))
        evs = load_trace(path)
        c.notes['concurrent_requests' + tag] = sum(len(e['ops']) for e in evs if e['ev'] == 'Conc')
        c.notes['epochs_seen' + tag] = sum(max([s['ep'] for o in e['ops'] for s in o['o']['strs']] or [0]) for e in evs if e['ev'] == 'Conc')


# --------------------------------------------------------------------------
# the key-value store

def kv_models(c):
    if c.prop == 'K01':
        info, _ = model_check('KvLog.tla', pick('MCKvLog.cfg', 'MCKvLogBig.cfg'))
        c.model(info)
        c.model(model_refuted('KvLog.tla', 'MCKvLogNoSync.cfg', 'Durable'))
        c.model(model_refuted('KvLog.tla', 'MCKvLogNoWhole.cfg', 'Atomic'))
    else:
        info, _ = model_check('MCKvRange.tla', pick('MCKvRange.cfg', 'MCKvRangeBig.cfg'))
        c.model(info)


@suite('K01', 'K02')
def kv(c):
    kv_models(c)
    hs = simulate('SimKv.tla', 'SimKv.cfg', pick(120, 1200), 56)
    path, n, _ = run_driver('kv', sum(hs, []), crash=['K01', 'K02'])
    bad, info = validate('KvTrace.tla', path, n, offset=0)
    c.trace(bad, info, path)
    evs = load_trace(path)
    c.notes['crash_images_recovered'] = sum(len(e['o']['during']) + len(e['o']['after']) for e in evs if e['ev'] == 'Write')


@suite('K01')
def kv_file(c):
    # OpenDB on real files, under strace
    rc, _, err = sh(['strace', '-o', '/dev/null', 'true'], 60)
    if rc != 0:
        c.notes['strace'] = 'not permitted here: ' + err[-200:]
        return
    hs = [[o for o in h if o['op'] != 'Crash'] for h in simulate('SimKv.tla', 'SimKv.cfg', pick(16, 120), 56)]
    path, n, _ = run_driver('kvfile', sum(hs, []))
    bad, info = validate('KvTrace.tla', path, n, offset=0)
    c.trace(bad, info, path)


# --------------------------------------------------------------------------
# messages on the wire

@suite('W01')
def wire(c):
    ops = sorted([h[0] for h in simulate_cases('WireCases.tla', pick('WireCases.cfg', 'WireCasesBig.cfg'))],
                 key=lambda o: json.dumps(o, sort_keys=True))
    path, n, _ = run_driver('wire', ops, crash=['W01'])
    bad, info = validate('WireTrace.tla', path, n, offset=1)
    c.trace(bad, info, path, boundary=('Req', 'Msg', 'Raw', 'Resp', 'BadResp', 'Pin', 'BadPin'))


# --------------------------------------------------------------------------
# the registration bot

@suite('B01')
def bot(c):
    info, _ = model_check('MCBot.tla', pick('MCBot.cfg', 'MCBotBig.cfg'))
    c.model(info)
    c.model(model_refuted('MCBot.tla', 'MCBotNoOwn.cfg', 'NoLoop'))
    c.model(model_refuted('MCBot.tla', 'MCBotNoName.cfg', 'Authentic'))
    ops = sorted([h[0] for h in simulate_cases('BotCases.tla', pick('BotCases.cfg', 'BotCasesBig.cfg'))],
                 key=lambda o: json.dumps(o, sort_keys=True))
    path, n, _ = run_driver('bot', ops, crash=['B01'])
    bad, info = validate('BotTrace.tla', path, n, offset=1)
    c.trace(bad, info, path, boundary=('Reg', 'Run', 'Start'))
    evs = load_trace(path)
    c.notes['messages_passed_on'] = sum(len(e['o']['fwd']) for e in evs if e['ev'] == 'Reg')
    c.notes['direct_messages_answered'] = sum(len(e['o']['sent']) for e in evs if e['ev'] == 'Run')


# --------------------------------------------------------------------------
# the primitives

@suite('X01')
def vrf(c):
    info, _ = model_check('VrfGame.tla', pick('VrfGame.cfg', 'VrfGameBig.cfg'))
    c.model(info)
    for x in ('NoP', 'NoII', 'NoGR', 'NoHR', 'NoGroup'):
        c.model(model_refuted('VrfGame.tla', 'VrfGame%s.cfg' % x, 'Sound'))
    ops = sorted([h[0] for h in simulate_cases('CryptoCases.tla', pick('CryptoCasesX1.cfg', 'CryptoCasesX1Big.cfg'))],
                 key=lambda o: json.dumps(o, sort_keys=True))
    ops += [dict(op='VrfForge', how='selftest', k=k, m=m, k2=k, m2=m) for k in range(1, 9) for m in (1, 5, 20)]
    path, n, _ = run_driver('crypto', ops, crash=['X01'])
    bad, info = validate('CryptoTrace.tla', path, n, offset=1)
    c.trace(bad, info, path, boundary=('VrfMake', 'VrfVer', 'VrfForge'))
    evs = load_trace(path)
    c.notes['forger_knows_the_scheme'] = all(e['o']['res'] == 'accept' for e in evs if e['ev'] == 'VrfForge' and e['how'] == 'selftest')
    c.notes['forged_proofs'] = sum(e['ev'] == 'VrfForge' for e in evs)


@suite('X02')
def sigs(c):
    info, _ = model_check('CommitGame.tla')
    c.model(info)
    c.model(model_refuted('CommitGame.tla', 'CommitGameNoLen.cfg', 'Binding'))
    ops = sorted([h[0] for h in simulate_cases('CryptoCases.tla', pick('CryptoCasesX2.cfg', 'CryptoCasesX2Big.cfg'))],
                 key=lambda o: json.dumps(o, sort_keys=True))
    path, n, _ = run_driver('crypto', ops, crash=['X02'])
    # processes started together
    ids = []
    exe = driver()
    ps = []
    for i in range(4):
        base = os.path.join(scratch(), 'fresh%d' % i)
        with open(base + '.ops', 'w') as f:
            f.write(json.dumps(dict(op='Rand', n=2000, v=i)))
        ps.append((base, subprocess.Popen([exe, 'crypto', '-in', base + '.ops', '-out', base + '.trace', '-seed', str(SEED)],
                                          stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
    for base, p in ps:
        _, err = p.communicate(timeout=120)
        if p.returncode != 0:
            raise CheckError('driver failed: %s' % err[-2000:])
        ids += load_trace(base + '.trace')[0]['o']['ids']
    with open(path, 'a') as f:
        f.write(json.dumps(dict(ev='Fresh', n=len(ids), ids=ids)) + '\n')
    bad, info = validate('CryptoTrace.tla', path, n + 1, offset=1)
    c.trace(bad, info, path, boundary=('SigVer', 'Open', 'Digest', 'DigestLen', 'Rand', 'RandFault'))


# --------------------------------------------------------------------------
# the command line programs

@suite('I01')
def setup(c):
    import setupdrv
    info, _ = model_check('MCSetup.tla', pick('MCSetup.cfg', 'MCSetupBig.cfg'))
    c.model(info)
    c.model(model_refuted('MCSetup.tla', 'MCSetupRace.cfg', 'Match'))
    c.model(model_refuted('MCSetup.tla', 'MCSetupRace2.cfg', 'NeverOverwritten'))
    c.model(model_refuted('MCSetup.tla', 'MCSetupRoot.cfg', 'NeverOverwritten'))
    hists = sorted(simulate_cases('SetupCases.tla', 'SetupCases.cfg'), key=lambda o: json.dumps(o, sort_keys=True))
    hists += simulate('SimSetup.tla', 'SimSetup.cfg', pick(400, 3000), 40)
    path, n = setupdrv.perform_all(hists)
    bad, info = validate('SetupTrace.tla', path, n, offset=1)
    c.trace(bad, info, path)
    evs = load_trace(path)
    c.notes['initialisations'] = sum(e['ev'] in ('Init', 'Killed', 'Paused') for e in evs)
    c.notes['servers_started'] = sum(e['ev'] == 'Start' and e['res'] == 'serves' for e in evs)
    c.notes['sessions_served'] = sum(e['ev'] == 'Session' and any(t != 'refused' for t in e['told']) for e in evs)
    c.notes['held_up_too_late'] = sum(e['ev'] == 'Paused' and e['late'] for e in evs)
