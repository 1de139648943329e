"""Performs set-up histories (Setup.tla) with the real command line programs."""
import hashlib, json, os, pty, re, select, shutil, signal, socket, stat, subprocess, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
import vlib

NAMES = dict(scfg='config.toml', spriv='sign.priv', spub='sign.pub', vpriv='vrf.priv', vpub='vrf.pub',
             pkey='server.key', pem='server.pem', istr='init.str')
LAYOUT = {f: ('keyserver/coniksserver', n) for f, n in NAMES.items()}
LAYOUT['ccfg'] = ('keyserver/coniksclient', 'config.toml')
LAYOUT['bcfg'] = ('keyserver/coniksbot', 'botconfig.toml')
DIRS = dict(server='keyserver/coniksserver', client='keyserver/coniksclient', bot='keyserver/coniksbot')
EXE = dict(server='coniksserver', client='coniksclient', bot='coniksbot')


def build():
    """Builds the command line programs from the working tree."""
    vlib.ensure_gomod()
    out = os.path.join(vlib.scratch(), 'bin')
    os.makedirs(out, exist_ok=True)
    for e in EXE.values():
        rc, o, err = vlib.sh(['go', 'build', '-o', os.path.join(out, e), './cli/' + e], 600, vlib.goenv(), vlib.REPO)
        if rc != 0:
            raise vlib.CheckError('cannot build %s:\n%s' % (e, o + err))
    return out


class Inspector:
    def __init__(self):
        self.p = subprocess.Popen([vlib.driver(), 'inspect', '-out', os.devnull], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
        self.lock, self.memo = threading.Lock(), {}

    def ask(self, what, path, path2=''):
        with self.lock:
            self.p.stdin.write(json.dumps(dict(What=what, Path=path, Path2=path2)) + '\n')
            self.p.stdin.flush()
            a = self.p.stdout.readline().strip()
        if not a:
            raise vlib.CheckError('the inspector ended')
        return a

    def key(self, what, path, h):
        k = (what, h)
        if k not in self.memo:
            self.memo[k] = self.ask(what, path)
        return self.memo[k]

    def close(self):
        self.p.stdin.close()
        self.p.wait()


_ports, _plock = set(), threading.Lock()


def free_port():
    with _plock:
        while True:
            s = socket.socket()
            s.bind(('127.0.0.1', 0))
            p = s.getsockname()[1]
            s.close()
            if p not in _ports:
                _ports.add(p)
                return p


class World:
    """One history's directories."""

    def __init__(self, bin, insp):
        self.bin, self.insp = bin, insp
        self.root = tempfile.mkdtemp(prefix='s', dir=vlib.scratch())
        for d in DIRS.values():
            os.makedirs(os.path.join(self.root, d))
        os.makedirs(os.path.join(self.root, 'elsewhere'))
        self.port = free_port()
        self.sock = os.path.join(self.root, 'k')
        self.proc, self.out, self.retry, self.moved = None, [], False, {}

    def path(self, f):
        return self.moved.get(f) or os.path.join(self.root, *LAYOUT[f])

    def snap(self):
        r = {}
        for f in LAYOUT:
            p = self.path(f)
            try:
                with open(p, 'rb') as fh:
                    b = fh.read()
                m = stat.S_IMODE(os.stat(p).st_mode)
                h = hashlib.sha256(b).hexdigest()[:16]
                r[f] = dict(id=h, key=self.insp.key(f, p, h), private=m & 0o077 == 0)
            except FileNotFoundError:
                r[f] = dict(id='none', key='none', private=True)
        return r

    def emit(self, ev, **kw):
        self.out.append(dict(kw, ev=ev, files=self.snap()))

    # --- the user's own doings
    def place(self, f, kind):
        p = self.path(f)
        pairs = dict(spriv=('sign', 0), spub=('sign', 1), vpriv=('vrf', 0), vpub=('vrf', 1), pkey=('tls', 0), pem=('tls', 1))
        b = ('not a %s %d\n' % (f, len(self.out))).encode()
        if kind != 'junk' and f in pairs:   # of a pair made elsewhere; the halves of one "kind" match
            what, i = pairs[f]
            base = os.path.join(self.root, 'elsewhere', what + kind)
            if not os.path.exists(base + '.0'):
                self.insp.ask('make ' + what, base + '.0', base + '.1')
            with open('%s.%d' % (base, i), 'rb') as fh:
                b = fh.read()
        with open(p, 'wb') as fh:
            fh.write(b)

    def edit(self):
        """The user gives fresh configurations addresses of his own."""
        done = False
        for f in ('scfg', 'ccfg'):
            p = self.path(f)
            if not os.path.exists(p):
                continue
            s = open(p, errors='replace').read()
            n = re.sub(r'"unix://[^"]*"', '"unix://%s"' % self.sock, s)
            n = re.sub(r'"tcp://[^"]*"', '"tcp://127.0.0.1:%d"' % self.port, n)
            if f == 'ccfg':
                n = re.sub(r'(registration_address *= *)"[^"]*"', r'\1"unix://%s"' % self.sock, n)
            if n != s:
                with open(p, 'w') as fh:
                    fh.write(n)
                done = True
        return done

    def move(self, f, how):
        """The user keeps a file elsewhere, and says so in the configurations."""
        now = self.snap()
        if now['scfg']['key'] != 'ok' or now['ccfg']['key'] not in ('ok', 'none') or f in self.moved:
            return False
        cfgs = [c for c, fs in (('scfg', ('spriv', 'vpriv', 'pkey', 'pem', 'istr')), ('ccfg', ('spub', 'istr'))) if f in fs]
        if any(now[c]['key'] != 'ok' for c in cfgs):
            return False
        d = os.path.join(self.root, 'vault', 'of keys')
        os.makedirs(d, exist_ok=True)
        to = os.path.join(d, NAMES[f] + '.moved')
        for c in cfgs:
            s = open(self.path(c)).read()
            k = dict(spriv='sign_key_path', vpriv='vrf_key_path', pkey='key', pem='cert', istr='init_str_path', spub='sign_pubkey_path')[f]
            new = to if how == 'abs' else os.path.relpath(to, os.path.dirname(self.path(c)))
            n, cnt = re.subn(r'(?m)^(\s*%s *= *)"[^"]*"' % k, lambda m: m.group(1) + json.dumps(new), s)
            if cnt != 1:
                raise vlib.CheckError('cannot edit %s in\n%s' % (k, s))
            with open(self.path(c), 'w') as fh:
                fh.write(n)
        if os.path.exists(self.path(f)):
            os.rename(self.path(f), to)
        self.moved[f] = to
        return True

    # --- the programs
    def initcmd(self, who, cert, cwd='other'):
        d = os.path.join(self.root, DIRS[who])
        cmd = [os.path.join(self.bin, EXE[who]), 'init']
        if cwd == 'other':
            cmd += ['--dir', d]
        if cert:
            cmd += ['-c']
        return cmd, d if cwd == 'dir' else self.root

    def run_init(self, who, cert, cwd, umask='022', wrap=()):
        cmd, d = self.initcmd(who, cert, cwd)
        cmd = list(wrap) + cmd
        return subprocess.Popen(['/bin/sh', '-c', 'umask %s; exec "$@"' % umask, 'sh'] + cmd, cwd=d,
                                stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, start_new_session=True)

    def init(self, op):
        p = self.run_init(op['who'], op.get('cert', False), op.get('cwd', 'other'), op.get('umask', '022'))
        rc = p.wait(60)
        self.emit('Init', who=op['who'], cert=op.get('cert', False), crashed=rc == 2 or rc < 0)

    def strace(self, f, k, what):
        return ['strace', '-f', '-qq', '-o', '/dev/null', '-P', self.path(f), '-e', 'trace=all', '-e', 'inject=%%file:%s:when=%d' % (what, k)]

    def crash(self, op):
        """An initialisation killed at its k-th use of a file's name."""
        p = self.run_init(op['who'], op['cert'], 'other', wrap=self.strace(op['f'], op['k'], 'signal=KILL'))
        rc = p.wait(60)
        self.emit('Killed', who=op['who'], cert=op['cert'], dead=rc < 0 or rc > 128)

    def pause(self, op):
        """An initialisation held up at its k-th use of a file's name, while
        another one runs, or the user puts a file of his there."""
        delay = 1.6
        t0 = time.time()
        p = self.run_init(op['who'], op['cert'], 'other', wrap=self.strace(op['f'], op['k'], 'delay_enter=%d' % (delay * 1e6)))
        time.sleep(0.5)
        if op['meanwhile'] == 'init':
            self.run_init(op['who'], op['cert'], 'other').wait(60)
        else:
            try:   # a file that appears complete, unless there is one
                tmp = self.path(op['f']) + '.new'
                with open(tmp, 'w') as fh:
                    fh.write('mine\n')
                os.link(tmp, self.path(op['f']))
            except FileExistsError:
                pass
            os.unlink(tmp)
        mid = self.snap()
        late = time.time() - t0 > delay - 0.1
        p.wait(60)
        self.emit('Paused', who=op['who'], cert=op['cert'], mid=mid, late=late, meanwhile=op['meanwhile'])

    def up(self):
        try:
            s = socket.socket(socket.AF_UNIX)
            s.connect(self.sock)
            s.close()
            s = socket.create_connection(('127.0.0.1', self.port), 1)
            s.close()
            return True
        except OSError:
            return False

    def start(self, op):
        if self.edit():   # never at the default addresses
            self.emit('Edit')
        d = os.path.join(self.root, DIRS['server'])
        cmd = [os.path.join(self.bin, 'coniksserver'), 'run']
        cwd = d
        if op['cwd'] == 'other':
            cwd = os.path.join(self.root, 'elsewhere')
            cmd += ['-c', '../' + DIRS['server'] + '/config.toml']
        elif op['cwd'] == 'abs':
            cwd = os.path.join(self.root, 'elsewhere')
            cmd += ['--config', os.path.join(d, 'config.toml')]
        pidf = os.path.join(cwd, 'coniks.pid')
        if op['pid']:
            cmd += ['-p']
            if op['oldpid']:
                with open(pidf, 'w') as fh:
                    fh.write('41943031234')
        if os.path.exists(self.sock):
            os.unlink(self.sock)
        err = open(os.path.join(self.root, 'err'), 'w+')
        self.proc = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.DEVNULL, stderr=err, stdin=subprocess.DEVNULL, start_new_session=True)
        res, t0 = 'neither', time.time()
        while time.time() - t0 < 40:
            if self.proc.poll() is not None:
                res = 'ended'
                break
            if self.up():
                res = 'serves'
                break
            time.sleep(0.03)
        if res != 'serves':
            self.stop_proc()
            if b'address already in use' in open(os.path.join(self.root, 'err'), 'rb').read():
                self.retry = True
        pid = 'none'
        if op['pid'] and res == 'serves':
            pid = 'right' if os.path.exists(pidf) and open(pidf).read().strip() == str(self.proc.pid) else 'wrong'
        self.emit('Start', res=res, wrote=op['pid'], pid=pid, cwd=op['cwd'])

    def stop_proc(self):
        if self.proc is None:
            return 'none'
        res = 'ended'
        if self.proc.poll() is None:
            self.proc.send_signal(signal.SIGINT)
            try:
                self.proc.wait(30)
            except subprocess.TimeoutExpired:
                self.proc.kill()
                self.proc.wait()
                res = 'killed'
        self.proc = None
        return res

    def stop(self):
        self.emit('Stop', res=self.stop_proc())

    def session(self, op):
        if self.edit():   # never at the default addresses
            self.emit('Edit')
        d = os.path.join(self.root, DIRS['client'])
        cmd = [os.path.join(self.bin, 'coniksclient'), 'run']
        cwd = d
        if op['cwd'] != 'dir':
            cwd = os.path.join(self.root, 'elsewhere')
            cmd += ['-c', os.path.join(d, 'config.toml') if op['cwd'] == 'abs' else '../' + DIRS['client'] + '/config.toml']
        loaded, told, end = converse(cmd, cwd, op['qs'])
        self.emit('Session', qs=op['qs'], loaded=loaded, told=told, end=end)


def classify(msg, q):
    if msg == 'Succesfully registered name: ' + q['name']:
        return 'registered'
    if msg == 'Name is already registered.':
        return 'existed'
    if msg.startswith('Are you trying to update your binding?'):
        return 'differs'
    if msg == "Name isn't registered.":
        return 'absent'
    m = re.fullmatch(r'Found! Key bound to name is: \[(.*)\]', msg)
    if m:
        return 'found:' + m.group(1)
    if msg.startswith('Error'):
        return 'refused'
    return 'said:' + msg[:100]


def converse(cmd, cwd, qs):
    """A session with the client, on a terminal of its own."""
    master, slave = pty.openpty()
    p = subprocess.Popen(cmd, cwd=cwd, stdin=slave, stdout=slave, stderr=slave, start_new_session=True)
    os.close(slave)
    buf = b''

    def until(rx, timeout):
        nonlocal buf
        t0 = time.time()
        while time.time() - t0 < timeout:
            m = re.search(rx, buf, re.S)
            if m:
                buf = buf[m.end():]
                return m
            r, _, _ = select.select([master], [], [], 0.2)
            if r:
                try:
                    b = os.read(master, 65536)
                except OSError:
                    b = b''
                if not b:
                    return re.search(rx, buf, re.S)
                buf += b
        return None
    told, loaded, end = [], 'no', 'ended'
    try:
        if until(rb'coniks-client> ', 30):
            loaded = 'yes'
            for q in qs:
                os.write(master, (' '.join([q['op'], q['name']] + ([q['key']] if q['op'] == 'register' else [])) + '\r').encode())
                m = until(rb'\[[+!]\] (.*?)\r+\n', 60)
                if not m:
                    told.append('nothing')
                    break
                told.append(classify(m.group(1).decode(errors='replace'), q))
            else:
                os.write(master, b'q\r')
                if not until(rb'See ya', 30):
                    end = 'odd'
    finally:
        try:
            p.wait(20)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            end = 'killed'
        os.close(master)
    if b'panic:' in buf or b'goroutine ' in buf:
        end = 'panic'
    return loaded, told, end


def perform(hist, bin, insp):
    for attempt in range(4):
        w = World(bin, insp)
        try:
            w.emit('New')
            for op in hist:
                o = op['op']
                if o == 'Place':
                    w.place(op['f'], op['kind'])
                    w.emit('Place', f=op['f'])
                elif o == 'Remove':
                    if os.path.exists(w.path(op['f'])):
                        os.unlink(w.path(op['f']))
                    w.emit('Place', f=op['f'])
                elif o == 'Edit':
                    w.edit()
                    w.emit('Edit')
                elif o == 'Move':
                    w.move(op['f'], op['how'])
                    w.emit('Edit')
                elif o in ('Init', 'Crash', 'Pause') and w.moved and op['who'] != 'bot':
                    pass   # would make the files at their usual places
                elif o == 'Init':
                    w.init(op)
                elif o == 'Crash':
                    w.crash(op)
                elif o == 'Pause':
                    w.pause(op)
                elif o == 'Start':
                    w.start(op)
                elif o == 'Stop':
                    w.stop()
                elif o == 'Session':
                    w.session(op)
                else:
                    raise vlib.CheckError('no operation ' + o)
                if w.retry:
                    break
            if not w.retry:
                return w.out
        finally:
            w.stop_proc()
            shutil.rmtree(w.root, True)
    raise vlib.CheckError('no free port')


def perform_all(hists, name='setup'):
    bin, insp = build(), Inspector()
    path = os.path.join(vlib.scratch(), name + '.trace')
    with ThreadPoolExecutor(12) as ex:
        res = list(ex.map(lambda h: perform(h, bin, insp), hists))
    insp.close()
    n = 0
    with open(path, 'w') as f:
        for evs in res:
            for e in evs:
                f.write(json.dumps(e) + '\n')
                n += 1
    vlib.log('set-ups', len(hists), 'histories', n, 'events')
    return path, n
