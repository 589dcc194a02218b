"""Deterministic simulation of the code generator: the real vrtpktgen process, its file system behind a seeded shim.

One run = one history of generator executions on one scratch directory (faulted, killed, concurrent, on damaged inputs, in other
environments), everything drawn from one seed, followed by an undisturbed execution.
"""
import array, errno, hashlib, json, os, random, select, shutil, signal, socket, struct, subprocess, sys, tempfile, time, multiprocessing
import vbuild
sys.path.insert(0, os.path.join(vbuild.VERIF, 'gensim'))
import cases

OPS = ['', 'OPEN', 'READ', 'WRITE', 'CLOSE', 'STAT', 'RENAME', 'UNLINK', 'MKDIR', 'RMDIR', 'LINK', 'SYMLINK', 'CHMOD', 'UTIME', 'TRUNC', 'SYNC',
       'SENDFILE', 'LISTDIR', 'ACCESS', 'READLINK', 'CHDIR', 'OTHER', 'ESCAPE']
for _i, _n in enumerate(OPS):
    if _n:
        globals()[_n] = _i
GO, FAIL, SHORT, KILL_BEFORE, KILL_AFTER, SHORT_KILL, SIGINT_GO, LOSE = range(8)
ACTS = ['go', 'fail', 'short', 'kill-before', 'kill-after', 'torn-write-kill', 'interrupt', 'lost-on-close']
STRIPES = 8
NCASES = 45
NOBODY = 65534
MODIFYING = {WRITE, RENAME, UNLINK, RMDIR, LINK, SYMLINK, TRUNC, SENDFILE, CLOSE, OPEN, OTHER, MKDIR, CHMOD}
ERRS = {
    OPEN: ['ENOENT', 'EACCES', 'EMFILE', 'EIO', 'ENOSPC', 'EROFS', 'ENOMEM', 'EINTR'], READ: ['EIO', 'EINTR', 'ESTALE'],
    WRITE: ['ENOSPC', 'EIO', 'EDQUOT', 'EINTR', 'EFBIG'], CLOSE: ['EIO', 'ENOSPC', 'EDQUOT'], STAT: ['EIO', 'EACCES', 'ENOENT'],
    RENAME: ['EIO', 'EXDEV', 'EACCES', 'ENOSPC'], UNLINK: ['EACCES', 'EIO'], MKDIR: ['ENOSPC', 'EACCES', 'EROFS', 'EIO'], RMDIR: ['EACCES'],
    LINK: ['EPERM', 'EMLINK'], SYMLINK: ['EPERM'], CHMOD: ['EPERM', 'EIO'], UTIME: ['EPERM', 'EIO'], TRUNC: ['EIO', 'ENOSPC'], SYNC: ['EIO', 'ENOSPC'],
    SENDFILE: ['ENOSPC', 'EIO', 'EINVAL', 'EINTR'], LISTDIR: ['EIO', 'EACCES', 'EMFILE'], ACCESS: ['EACCES', 'EIO'], READLINK: ['EIO', 'EACCES'], CHDIR: ['EACCES'],
    OTHER: ['EPERM'],
}
ASSUME = ['the generator reaches files through the C library calls the shim intercepts; a call it made around them would not be faulted',
          'a kill loses nothing that was already written (process death, not power loss)',
          'the reference output is the one of an undisturbed execution with hash seed 0 in an empty directory']


class Violation(Exception):
    def __init__(self, props, sig, msg):
        super().__init__(msg)
        self.props, self.sig, self.msg = props, sig, msg


class HarnessError(Exception):
    pass


# ---- build -------------------------------------------------------------------------------------------------------
def build(log=None):
    os.makedirs(vbuild.BUILD, exist_ok=True)
    key = vbuild.digest('gen', os.path.join(vbuild.REPO, 'src'), os.path.join(vbuild.VERIF, 'gensim', 'fsshim.c'), os.path.join(vbuild.VERIF, 'gensim', 'server.py'),
                        os.path.join(vbuild.VERIF, 'tools', 'vbuild.py'))
    out = os.path.join(vbuild.BUILD, 'gen-' + key)
    if os.path.isdir(out):
        return out
    tmp = out + '.tmp%d' % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    for d in sorted((d for d in os.listdir(vbuild.BUILD) if d.startswith('gen-') and '.tmp' not in d), key=lambda d: os.path.getmtime(os.path.join(vbuild.BUILD, d)))[:-2]:
        shutil.rmtree(os.path.join(vbuild.BUILD, d), ignore_errors=True)
    vbuild.generator_env(os.path.join(tmp, 'pkg'))
    vbuild.run(['gcc', '-O1', '-fPIC', '-shared', '-w', '-o', os.path.join(tmp, 'fsshim.so'), os.path.join(vbuild.VERIF, 'gensim', 'fsshim.c'), '-ldl'], what='file system shim')
    shutil.copy(os.path.join(vbuild.VERIF, 'gensim', 'server.py'), tmp)
    os.chmod(tmp, 0o755)
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def environment(k, j):
    """environment j of stripe k; number 0 is the reference"""
    if j == 0:
        return {'PYTHONHASHSEED': '0', 'LC_ALL': 'C.UTF-8', 'TZ': 'UTC'}
    r = random.Random('env %d %d' % (k, j))
    e = {'PYTHONHASHSEED': str(r.randrange(1, 1 << 32)), 'TZ': r.choice(['UTC', 'Pacific/Chatham', 'America/New_York'])}
    e.update([{'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'}, {'LC_ALL': 'POSIX'}, {'LANG': 'C.UTF-8', 'LC_ALL': ''}][(j + k) % 3])
    return e


class Server:
    def __init__(self, out, env, libdir):
        a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        e = {k: v for k, v in os.environ.items() if not k.startswith(('LC_', 'PYTHON', 'LANG', 'TZ'))}
        e.update(env)
        e['PYTHONPATH'] = os.path.join(out, 'pkg', 'src')
        e['PYTHONDONTWRITEBYTECODE'] = '1'
        e['LD_PRELOAD'] = os.path.join(out, 'fsshim.so')
        e['COLUMNS'] = '80'
        self.p = subprocess.Popen([vbuild.PY, os.path.join(out, 'server.py'), str(b.fileno()), os.path.join(out, 'fsshim.so'),
                                   os.path.join(out, 'pkg', 'src'), os.path.join(out, 'templates.cache')],
                                  env=e, pass_fds=[b.fileno()], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd='/')
        b.close()
        self.s = a
        self.up = False

    def ready(self):
        if not self.up:
            if self.s.recv(16) != b'ready':
                raise HarnessError('the generator cannot be loaded: ' + self.p.stderr.read().decode(errors='replace')[-1500:])
            self.up = True
        return self

    def close(self):
        self.s.close()
        try:
            self.p.wait(5)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()


# ---- one generator execution -------------------------------------------------------------------------------------
class Exec:
    def __init__(self, server, scratch, cwd, argv, seed, shift, pid, warm=None):
        rq, self.wq = os.pipe()
        rv, wv = os.pipe()
        rs, ws = os.pipe()
        self.out = os.memfd_create('out')
        m = {'argv': argv, 'cwd': cwd, 'seed': seed & (2**63 - 1), 'shift': shift, 'pid': pid, 'scratch': scratch}
        if warm:
            m['warm'] = warm
        socket.send_fds(server.s, [json.dumps(m).encode()], [self.wq, rv, self.out, ws])
        for x in (self.wq, rv, ws):
            os.close(x)
        self.rq, self.wv, self.rs = rq, wv, rs
        self.status = None
        self.hung = False
        self.pid = struct.unpack('i', self._read(rs, 4, 60) or b'\0\0\0\0')[0]
        self.buf = b''

    def _read(self, fd, n, timeout):
        b = b''
        while len(b) < n:
            r, _, _ = select.select([fd], [], [], timeout)
            if not r:
                self.hung = True
                if self.pid:
                    try:
                        os.kill(self.pid, signal.SIGKILL)
                    except OSError:
                        pass
                timeout = 20
                continue
            x = os.read(fd, n - len(b))
            if not x:
                return None
            b += x
        return b

    def request(self):
        h = self._read(self.rq, 32, 150)
        if h is None:
            st = self._read(self.rs, 4, 60)
            self.status = struct.unpack('i', st)[0] if st else -1
            return None
        ln, op, fd, flags, size, l1, l2 = struct.unpack('=IIiiQII', h)
        b = self._read(self.rq, l1 + l2, 20) if l1 + l2 else b''
        if b is None:
            return self.request()
        return op, fd, flags, size, os.fsdecode(b[:l1]), os.fsdecode(b[l1:])

    def answer(self, act, err=0, n=0):
        try:
            os.write(self.wv, struct.pack('=IiQ', act, err, n))
        except BrokenPipeError:
            pass

    def output(self):
        n = os.fstat(self.out).st_size
        return os.pread(self.out, min(n, 20000), max(0, n - 20000)).decode(errors='replace')

    def close(self):
        for x in (self.rq, self.wv, self.rs, self.out):
            os.close(x)

    def how(self):
        if self.hung:
            return 'does not end'
        if os.WIFSIGNALED(self.status):
            return 'is killed by signal %d' % os.WTERMSIG(self.status)
        return 'exits with status %d' % os.WEXITSTATUS(self.status)

    @property
    def ok(self):
        return not self.hung and os.WIFEXITED(self.status) and os.WEXITSTATUS(self.status) == 0


def tree(top):
    """{relative path: contents, None for a directory}"""
    res = {}
    for d, dirs, fs in os.walk(top):
        dirs.sort()
        rel = os.path.relpath(d, top)
        for x in dirs:
            res[os.path.normpath(os.path.join(rel, x))] = None
        for x in sorted(fs):
            p = os.path.join(d, x)
            with open(p, 'rb') as f:
                res[os.path.normpath(os.path.join(rel, x))] = f.read()
    return res


def read(p):
    try:
        with open(p, 'rb') as f:
            return f.read()
    except (FileNotFoundError, NotADirectoryError):
        return None
    except IsADirectoryError:
        return 'directory'


def keyed(*a):
    return random.Random('|'.join(map(str, a)))


class Plan:
    """The faults one execution meets."""
    MODES = ['errno', 'errno', 'errno', 'read-errno', 'kill', 'kill', 'interrupt', 'rate', 'full', 'lose', 'emfile', 'benign', 'stall-errno']

    def __init__(self, r, ops, mode=None):
        self.mode = mode or r.choice(self.MODES)
        self.noise = r.random() < 0.4 or self.mode == 'benign'
        self.at = {}
        self.key = None
        n = max(1, len(ops))
        classes = sorted(set(o for o, _ in ops))

        def pick(want=None):
            cl = [c for c in classes if want is None or c in want] or classes
            if not cl:
                return 0, OPEN
            c = r.choice(cl) if r.random() < 0.7 else r.choice([o for o, _ in ops if want is None or o in want] or cl)
            i = r.choice([i for i, (o, _) in enumerate(ops) if o == c])
            return i, c
        if self.mode == 'errno':
            for _ in range(r.choice([1, 1, 1, 2, 4])):
                i, c = pick()
                self.at[i] = ('fail', r.random())
        elif self.mode == 'read-errno':
            i, c = pick({OPEN, READ, STAT, LISTDIR, ACCESS})
            self.at[i] = ('fail', r.random())
        elif self.mode == 'kill':
            i, c = pick({OPEN, WRITE, CLOSE, RENAME, SENDFILE, MKDIR, UTIME, CHMOD, UNLINK, TRUNC} if r.random() < 0.8 else None)
            self.at[i] = ('kill', r.random())
        elif self.mode == 'interrupt':
            i, c = pick({OPEN, WRITE, CLOSE, RENAME, SENDFILE, MKDIR, UTIME, CHMOD} if r.random() < 0.8 else None)
            self.at[i] = ('int', r.random())
        elif self.mode == 'lose':
            i, c = pick({CLOSE})
            self.lose_from = i
        elif self.mode == 'rate':
            self.rate = r.choice([0.002, 0.01, 0.05])
        elif self.mode == 'full':
            self.left = r.choice([0, 1, 100, 5000, 60000, r.randrange(1 << 19)])
        elif self.mode == 'emfile':
            i, c = pick({OPEN})
            self.emfile = i
        elif self.mode == 'stall-errno':        # one path keeps failing, as with a bad disk block
            i, c = pick({OPEN, RENAME, WRITE, READ, SENDFILE, CLOSE})
            self.bad = (c, ops[i][1] if i < len(ops) else '', r.random())

    def decide(self, q, i, op, flags, size, rel):
        """(act, errno, n, label)"""
        def fail(x, always=False):
            names = [e for e in ERRS.get(op, ['EIO']) if e != 'EINTR' or not always]       # an interrupted call is made again
            if op == OPEN and not flags & 3 and not flags & os.O_CREAT:
                names = [e for e in names if e not in ('ENOSPC', 'EROFS')]
            e = names[int(x * len(names)) % len(names)]
            return FAIL, getattr(errno, e), 0, '%s of %s' % (e, OPS[op])
        a = self.at.get(i)
        if a:
            if a[0] == 'fail':
                return fail(a[1])
            if a[0] == 'int':
                return SIGINT_GO, 0, 0, 'SIGINT at ' + OPS[op]
            acts = [KILL_BEFORE, KILL_AFTER]
            if op in (WRITE, SENDFILE) and size > 1:
                acts = [KILL_BEFORE, KILL_AFTER, SHORT_KILL, SHORT_KILL]
            k = acts[int(a[1] * len(acts)) % len(acts)]
            return k, 0, 1 + int(a[1] * 977) % max(1, size - 1) if k == SHORT_KILL else 0, '%s at %s' % (ACTS[k], OPS[op])
        if self.mode == 'rate' and q.random() < self.rate:
            return fail(q.random())
        if self.mode == 'lose' and op == CLOSE and i >= self.lose_from and flags & 3:
            self.lose_from = 1 << 60
            return LOSE, errno.EIO, int(q.random() * 300), 'data lost at CLOSE'
        if self.mode == 'emfile' and op == OPEN and i >= self.emfile:
            return FAIL, errno.EMFILE, 0, 'EMFILE of OPEN'
        if self.mode == 'stall-errno' and op == self.bad[0] and rel == self.bad[1]:
            return fail(self.bad[2], True)
        if self.mode == 'full':
            if op in (WRITE, SENDFILE):
                if self.left <= 0:
                    return FAIL, errno.ENOSPC, 0, 'disk full at ' + OPS[op]
                n = min(size, self.left)
                if op == SENDFILE:
                    n = min(n, 700)
                self.left -= n
                if n < size and op == WRITE:
                    return SHORT, 0, n, 'disk nearly full'
            elif self.left <= 0 and (op == MKDIR or op == OPEN and flags & os.O_CREAT) and q.random() < 0.5:
                return FAIL, errno.ENOSPC, 0, 'disk full at ' + OPS[op]
        if self.noise and op in (READ, WRITE, SENDFILE) and size > 1 and q.random() < 0.1:
            return SHORT, 0, 1 + q.randrange(min(size - 1, 4000)), 'short ' + OPS[op]
        if self.noise and op in (READ, WRITE) and q.random() < 0.03:
            return FAIL, errno.EINTR, 0, 'EINTR of ' + OPS[op]
        return GO, 0, 0, None


BENIGN = ('short ', 'EINTR of READ', 'EINTR of WRITE')


class World:
    """Runs histories; one per worker process."""
    def __init__(self, k, prop, log=None):
        self.k, self.prop = k, prop
        self.out = build()
        self.top = tempfile.mkdtemp(prefix='vsimgen-', dir='/tmp')
        os.chmod(self.top, 0o755)
        self.scratch = os.path.join(self.top, 'r')
        self.servers = [Server(self.out, environment(k, j), self.out) for j in range(3)]
        self.refs = {}
        self.skipped = {}

    def close(self):
        for s in self.servers:
            s.close()
        shutil.rmtree(self.top, ignore_errors=True)

    # -- scratch directory
    def wipe(self):
        shutil.rmtree(self.scratch, ignore_errors=True)
        os.mkdir(self.scratch)
        self.own(self.scratch)

    @staticmethod
    def own(p):
        if os.getuid() == 0:
            os.lchown(p, NOBODY, NOBODY)

    def mkdirs(self, rel):
        p = self.scratch
        for x in rel.split('/'):
            p = os.path.join(p, x)
            if not os.path.isdir(p):
                os.mkdir(p)
                self.own(p)

    def put(self, rel, data, mtime=1600000000, mode=0o644):
        self.mkdirs(os.path.dirname(rel))
        p = os.path.join(self.scratch, rel)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p)
        if data is None:
            os.path.exists(p) and os.unlink(p)
            os.mkdir(p)
        else:
            with open(p, 'wb') as f:
                f.write(data.encode() if isinstance(data, str) else data)
            os.chmod(p, mode)
        self.own(p)
        os.utime(p, (mtime, mtime))

    def remove(self, rel):
        p = os.path.join(self.scratch, rel)
        if os.path.isdir(p):
            shutil.rmtree(p)
        elif os.path.exists(p):
            os.unlink(p)

    def place(self, case, was=None):
        for f in (was or {}).get('files', {}):
            if f not in case['files']:
                self.remove(f)
        for f, t in case['files'].items():
            self.put(f, t)

    # -- undisturbed output of a case
    def reference(self, case):
        key = (case['id'], case.get('variant', ''))
        if key in self.refs:
            return self.refs[key]
        self.wipe()
        self.place(case)
        self.dates('reference')
        before = tree(self.scratch)
        x = Exec(self.servers[0].ready(), self.scratch, os.path.join(self.scratch, case['cwd']), case['argv'], 1, 1700000000, 4000)
        ops = []
        while True:
            q = x.request()
            if q is None:
                break
            if q[0] == ESCAPE:
                x.answer(GO)
                continue
            ops.append((q[0], self.rel(q[4])))
            x.answer(GO)
        after = tree(self.scratch)
        ref = {'ok': x.ok, 'how': x.how(), 'text': x.output()[-600:], 'ops': ops,
               'out': {p: b for p, b in after.items() if b is not None and (p not in before or p in case['must'])},
               'dirs': [p for p, b in after.items() if b is None and p not in before]}
        x.close()
        self.refs[key] = ref
        return ref

    def rel(self, p):
        if p.startswith(self.scratch + '/'):
            return p[len(self.scratch) + 1:]
        if p == self.scratch:
            return '.'
        pk = os.path.join(self.out, 'pkg', 'src')
        if p.startswith(pk):
            return 'pkg' + p[len(pk):]
        return p

    # -- one history
    def violate(self, props, sig, msg):
        """the other properties' violations are none of this check's business: the execution goes on"""
        if self.prop in props:
            raise Violation(props, sig, msg)

    def dates(self, *key):
        """everything in the tree gets a time of modification that depends on the seed"""
        for a, dirs, fs in os.walk(self.scratch, topdown=False):
            for x in fs + ['.']:
                p = os.path.normpath(os.path.join(a, x))
                r = keyed('dates', *key, self.rel(p))
                if x == '.' or r.random() < 0.5:
                    t = r.choice([1000000000, 1600000000, 1700000000, 4000000000]) + r.randrange(86400)
                    os.utime(p, (t, t))

    def run(self, seed, keep=None, drop=(), verbose=False):
        R = {'seed': seed, 'fired': [], 'labels': {}, 'execs': 0, 'ops': 0, 'vio': None, 'trace': [], 'kind': '', 'order': 0, 'skip': None, 'status': {}, 'switches': 0}
        h = hashlib.sha256()
        oh = hashlib.sha256()
        live = []
        try:
            self._run(seed, keep, set(drop), R, h, oh, live, verbose)
        except Violation as v:
            if self.prop in v.props:
                R['vio'] = (v.sig, v.msg)
                h.update(('violation ' + v.sig).encode())
                R['trace'].append('VIOLATION %s: %s' % (v.sig, v.msg))
        finally:
            for x in live:
                x.close()
        R['hash'] = h.hexdigest()[:16]
        R['order'] = oh.hexdigest()[:16]
        return R

    def _run(self, seed, keep, drop, R, h, oh, live, verbose):
        r = random.Random('run %d' % seed)
        case = cases.make(r.randrange(NCASES))
        alt = dict(case, variant='B', argv=list(case['argv']))
        if '--namespace' in alt['argv']:
            alt['argv'][alt['argv'].index('--namespace') + 1] = 'other::name'
        else:
            i = alt['argv'].index('cpp')
            alt['argv'][i + 1:i + 1] = ['--namespace', 'other::name']
        kind = r.choice(['fault'] * 6 + ['env'] * (3 if self.prop != 'G02' else 8) + ['concurrent'] * 3 + ['damaged'] * (3 if self.prop != 'G01' else 6) + ['edit'] * 3)
        R['kind'] = kind
        ref, refb = self.reference(case), None
        T = R['trace']
        if not ref['ok']:
            self.skipped[case['id']] = ref['how'] + ' ' + ref['text']
            if self.prop == 'G01':
                R['skip'] = case['id']
                return
            self.violate(('G02', 'G03'), 'fails', 'vrtpktgen %s %s in an empty directory although nothing fails: %s' % (' '.join(case['argv']), ref['how'], ref['text'][-300:]))
        T.append('case %d (%s): vrtpktgen %s' % (case['id'], case['kind'], ' '.join(case['argv'])))
        for m in case['must']:
            if not ref['out'].get(m):
                self.violate(('G01',), 'missing-output', 'vrtpktgen %s exits with status 0 without %s' % (' '.join(case['argv']), m))
        if kind == 'edit':
            refb = self.reference(alt)
            if not refb['ok']:
                R['skip'] = case['id']
                return

        # the state the history starts in
        self.wipe()
        self.place(case)
        prior = r.choice(['none', 'none', 'garbage', 'same', 'cut', 'longer', 'mixed'])
        T.append('output directory before: ' + prior)
        if prior != 'none':
            for p, b in sorted(ref['out'].items()):
                if p in case['files']:
                    continue
                what = r.choice(['garbage', 'same', 'cut', 'longer', 'absent']) if prior == 'mixed' else prior
                old = {'garbage': b'old contents of ' + p.encode() + b'\n', 'same': b, 'cut': b[:r.randrange(len(b) + 1)], 'longer': b + b'// more\n' * 400, 'absent': None}[what]
                if old is not None:
                    self.put(p, old, mtime=r.choice([1000000000, 1600000000, 4000000000]), mode=r.choice([0o644, 0o644, 0o600, 0o444]))
            self.put(case['out'] + '/notes.txt', b'kept by the user\n')
            if r.random() < 0.3:
                self.put(case['out'] + '/.left.hpp.4001.tmp', b'left over\n')
        else:
            self.put('work/README', b'kept by the user\n')

        # the history
        groups = []
        if kind == 'fault':
            for _ in range(r.choice([1, 1, 2, 3])):
                groups.append([(case, 'faults')])
        elif kind == 'env':
            for _ in range(r.choice([1, 2])):
                groups.append([(case, r.choice(['benign', 'none']))])
        elif kind == 'concurrent':
            groups.append([(case, r.choice(['none', 'none', 'faults'])), (case, r.choice(['none', 'faults', 'benign']))])
        elif kind == 'damaged':
            bad, what = cases.damage(case, r)
            groups.append([(dict(bad, what=what), r.choice(['none', 'none', 'benign']))])
        elif kind == 'edit':
            groups.append([(case, r.choice(['none', 'faults']))])
            groups.append([(alt, r.choice(['faults', 'faults', 'none']))])
        final = alt if kind == 'edit' else case
        groups.append([(final, 'final')])
        sid = 0
        placed = case
        for gi, g in enumerate(groups):
            if gi in drop:
                sid += len(g)
                continue
            sess = []
            c0 = g[0][0]
            if c0['files'] is not placed['files']:
                self.place(c0, placed)
                placed = c0
            elif kind == 'damaged' and gi:
                self.place(c0, placed)
                placed = c0
            for c, f in g:
                sess.append(self.session(seed, sid, c, f, R))
                sid += 1
            self.group(seed, gi, sess, R, h, oh, live, keep, verbose, last=gi == len(groups) - 1, earlier=gi > 0)

    def session(self, seed, sid, case, faults, R):
        r = keyed('session', seed, sid)
        s = {'id': sid, 'case': case, 'faults': faults, 'env': r.randrange(3), 'shift': r.randrange(1, 1 << 32), 'n': 0, 'pid': 4000 + (sid if r.random() < 0.8 else 0) + (sid & 1),
             'hard': [], 'log': []}
        s['ref'] = None if 'what' in case else self.refs[(case['id'], case.get('variant', ''))]
        ops = s['ref']['ops'] if s['ref'] else [(OPEN, '')] * 60
        s['plan'] = Plan(r, ops, 'benign' if faults == 'benign' else None) if faults in ('faults', 'benign') else None
        return s

    def group(self, seed, gi, sess, R, h, oh, live, keep, verbose, last, earlier):
        T = R['trace']
        before = tree(self.scratch)
        case = sess[0]['case']
        inputs = {f for f in case['files'] if case['files'][f] is not None}
        outputs = {}
        good = next((s['ref'] for s in sess if s['ref']), None)
        if good is None:
            good = self.refs[(case['id'], case.get('variant', ''))]
        for p, b in good['out'].items():
            outputs[p] = [before.get(p), b]
        desc = lambda s: 'vrtpktgen %s' % ' '.join(s['case']['argv'])

        def judge_file(p, why):
            b = read(os.path.join(self.scratch, p))
            if p in outputs:
                if not any(b == x for x in outputs[p]):
                    if b is None:
                        self.violate(('G03',), 'output-lost', '%s, which held %d bytes, is gone %s' % (p, len(outputs[p][0] or b''), why))
                        return
                    self.violate(('G03',), 'output-torn', '%s holds %s, neither its previous %s nor its new %d bytes, %s' % (
                        p, 'a directory' if b == 'directory' else '%d bytes' % len(b), 'contents' if outputs[p][0] is not None else 'absence', len(outputs[p][1]), why))
                if p in inputs and b != before.get(p):
                    self.violate(('G03',), 'input-damaged', 'the input file %s was changed %s' % (p, why))
            elif p in inputs or (p in before and before[p] is not None and not p.endswith('.tmp')):
                if b != before[p]:
                    self.violate(('G03',), 'input-damaged' if p in inputs else 'foreign-file', '%s was changed %s' % (p, why))

        pend = {}
        self.dates(seed, gi)
        for s in sess:
            env = s['env'] if s['faults'] != 'final' else keyed('final', seed).randrange(3)
            s['x'] = Exec(self.servers[env].ready(), self.scratch, os.path.join(self.scratch, s['case']['cwd']), s['case']['argv'], seed * 64 + s['id'], s['shift'], s['pid'])
            live.append(s['x'])
            R['execs'] += 1
            T.append('execution %d: %s; environment %s; faults %s%s' % (s['id'], s['case'].get('what', 'as given'), environment(self.k, env), s['faults'],
                                                                        ' (%s)' % s['plan'].mode if s['plan'] else ''))
            pend[s['id']] = s['x'].request()
        by = {s['id']: s for s in sess}
        q = keyed('order', seed, gi)
        stay = q.choice([0.0, 0.5, 0.9, 0.98])
        cur = sess[0]['id']
        while True:
            ready = [i for i in pend if pend[i] is not None]
            for i in list(pend):
                if pend[i] is None:
                    del pend[i]
                    self.ended(by[i], R, h, before, inputs, outputs, earlier, last, desc, T, len(sess) > 1)
            if not ready:
                break
            ready.sort()
            if cur not in ready or (len(ready) > 1 and q.random() >= stay):
                nxt = q.choice(ready)
                if nxt != cur:
                    R['switches'] += 1
                cur = nxt
            s = by[cur]
            op, fd, flags, size, p1, p2 = pend[cur]
            rel1, rel2 = self.rel(p1), self.rel(p2) if p2 else ''
            i = s['n']
            s['n'] += 1
            R['ops'] += 1
            if s['n'] > 20000:
                s['x'].hung = True
                os.kill(s['x'].pid, signal.SIGKILL)
                raise Violation(('G01', 'G02', 'G03'), 'hang', '%s does not end: %d file operations' % (desc(s), s['n']))
            if op == ESCAPE:
                self.violate(('G03',), 'escape', '%s: writes outside the output directory: %s %s' % (desc(s), OPS[flags] if flags < len(OPS) else '', p1))
                s['x'].answer(GO)
                pend[cur] = s['x'].request()
                continue
            act, err, n, label = GO, 0, 0, None
            if s['plan']:
                act, err, n, label = s['plan'].decide(keyed(seed, s['id'], i), i, op, flags, size, rel1)
                if label and keep is not None and (s['id'], i) not in keep:
                    act, err, n, label = GO, 0, 0, None
            if label:
                R['fired'].append((s['id'], i))
                R['labels'][label] = R['labels'].get(label, 0) + 1
                if not label.startswith(BENIGN):
                    s['hard'].append(label)
                T.append('  execution %d, operation %d: %s %s -> %s' % (s['id'], i, OPS[op], rel1, label))
            elif verbose:
                T.append('  execution %d, operation %d: %s %s %s' % (s['id'], i, OPS[op], rel1, rel2))
            h.update(('%d %d %s %s %d %d %d %d;' % (s['id'], op, rel1, rel2, size if op in (READ, WRITE, SENDFILE) else 0, act, err, n)).encode('utf-8', 'surrogateescape'))
            oh.update(b'%d %d' % (s['id'], op))
            s['x'].answer(act, err, n)
            pend[cur] = s['x'].request()
            if op in MODIFYING and not rel1.startswith('pkg') and (op != OPEN or flags & (os.O_ACCMODE | os.O_TRUNC | os.O_CREAT)):
                why = 'after operation %d (%s %s%s) of %s' % (i, OPS[op], rel1, ' to ' + rel2 if rel2 else '', desc(s))
                for p in (rel1, rel2):
                    if p:
                        if not (p + '/').startswith(case['out'] + '/') and p != os.path.dirname(case['out']) and p not in inputs and op != CLOSE:
                            self.violate(('G03',), 'outside', '%s touches %s, which is not in the output directory' % (desc(s), p))
                        judge_file(p, why)
        after = tree(self.scratch)
        for p in sorted(set(before) | set(outputs)):
            if before.get(p, 0) is None:        # a directory
                if p not in after:
                    self.violate(('G03',), 'foreign-file', 'the directory %s is gone after %s' % (p, desc(sess[0])))
                continue
            judge_file(p, 'when it has ended: ' + '; '.join(desc(s) + ' ' + s['x'].how() for s in sess))
        for p in sorted(after):
            if p not in before and not (p + '/').startswith(case['out'] + '/'):
                self.violate(('G03',), 'outside', '%s appeared, which is not in the output directory' % p)
        for p in sorted(after):
            h.update(('%s %s;' % (p, hashlib.sha256(after[p]).hexdigest() if after[p] is not None else '')).encode('utf-8', 'surrogateescape'))
        for s in sess:
            s['x'].close()
            live.remove(s['x'])

    def ended(self, s, R, h, before, inputs, outputs, earlier, last, desc, T, concurrent):
        x = s['x']
        T.append('execution %d %s after %d operations' % (s['id'], x.how(), s['n']))
        k = x.how()
        R['status'][k] = R['status'].get(k, 0) + 1
        h.update(('end %d %s;' % (s['id'], k)).encode())
        if x.hung:
            raise Violation(('G01', 'G02', 'G03'), 'hang', '%s does not end' % desc(s))
        text = ' '.join(x.output().strip().split('\n')[-2:])[-300:]
        if os.WIFSIGNALED(x.status) and not any('kill' in l for l in s['hard']):
            raise Violation(('G01', 'G02', 'G03'), 'crash', '%s %s: %s' % (desc(s), k, text))
        if 'what' in s['case']:
            if x.ok:
                self.violate(('G01',), 'accepted', '%s exits with status 0 on %s' % (desc(s), s['case']['what']))
            return
        if x.ok:
            ref = s['ref']['out']
            for p in sorted(ref):
                b = read(os.path.join(self.scratch, p))
                if b == ref[p]:
                    continue
                short = b is None or b == 'directory' or len(b) < len(ref[p]) and ref[p].startswith(b)
                props = []
                if s['hard'] or short or b == before.get(p):
                    props.append('G01')
                if not s['hard']:
                    props += ['G02', 'G03'] if earlier else ['G02']
                at = 0
                if isinstance(b, bytes):
                    while at < min(len(b), len(ref[p])) and b[at] == ref[p][at]:
                        at += 1
                self.violate(tuple(props), 'incomplete' if s['hard'] or short else 'differs', '%s exits with status 0%s but %s %s' % (
                    desc(s), ' after ' + s['hard'][0] if s['hard'] else '', p, 'does not exist' if b is None else 'is a directory' if b == 'directory' else
                    'differs from what an undisturbed execution writes (%d bytes, expected %d, from byte %d on)' % (len(b), len(ref[p]), at)))
            if not s['hard'] and not concurrent:
                for p, b in tree(self.scratch).items():
                    if b is not None and p not in before and p not in ref:
                        self.violate(('G02',), 'extra-file', '%s leaves %s, which an undisturbed execution does not write' % (desc(s), p))
        elif not s['hard']:
            self.violate(('G03', 'G02') if earlier else ('G02',), 'fails', '%s %s although nothing fails: %s' % (desc(s), k, text))


# ---- search ------------------------------------------------------------------------------------------------------
def warm_up(out):
    """Compile the templates once for all servers."""
    if os.path.exists(os.path.join(out, 'templates.cache')):
        return
    top = tempfile.mkdtemp(prefix='vsimgen-', dir='/tmp')
    os.chmod(top, 0o755)
    s = Server(out, environment(0, 0), out)
    try:
        s.ready()
        xs = []
        for i, cid in enumerate([0, 1, 3, 4, 5, 12, 13, 14, 21, 22, 23]):
            c = cases.make(cid)
            d = os.path.join(top, str(i))
            os.mkdir(d)
            for f, t in c['files'].items():
                os.makedirs(os.path.join(d, os.path.dirname(f)), exist_ok=True)
                with open(os.path.join(d, f), 'wb') as g:
                    g.write(t.encode())
            for a, dirs, fs in os.walk(d):
                for x in [a] + [os.path.join(a, y) for y in fs]:
                    World.own(x)
            xs.append((Exec(s, d, os.path.join(d, c['cwd']), c['argv'], 1, 1, 1, warm=os.path.join(d, 'memo')), os.path.join(d, 'memo')))
        for x, memo in xs:
            while x.request() is not None:
                pass
            x.close()
            if os.path.exists(memo):
                socket.send_fds(s.s, [json.dumps({'learn': memo}).encode()], [])
                s.s.recv(16)
        socket.send_fds(s.s, [json.dumps({'save': 1}).encode()], [])
        s.s.recv(16)
    finally:
        s.close()
        shutil.rmtree(top, ignore_errors=True)


def worker(k, prop, seeds, secs, known, mintime, conn, halt):
    res = {'runs': 0, 'execs': 0, 'ops': 0, 'switches': 0, 'labels': {}, 'runs_with': {}, 'kinds': {}, 'hashes': set(), 'orders': set(), 'status': {}, 'rechecked': 0, 'mismatches': 0,
           'vio': None, 'error': None, 'known': {}, 'nontrivial': 0, 'samples': [], 'last': 0, 'skipped': {}, 'ungated': 0}
    w = None
    try:
        w = World(k, prop)
        end = time.time() + secs
        n = 0
        while time.time() < end and not halt.is_set():
            seed = seeds + n * STRIPES + k
            n += 1
            R = w.run(seed)
            res['last'] = seed
            if R['skip'] is not None:
                continue
            res['runs'] += 1
            for key in ('execs', 'ops', 'switches'):
                res[key] += R[key]
            for a, b in (('labels', R['labels']), ('status', R['status'])):
                for l, c in b.items():
                    res[a][l] = res[a].get(l, 0) + c
            for l in R['labels']:
                res['runs_with'][l] = res['runs_with'].get(l, 0) + 1
            res['kinds'][R['kind']] = res['kinds'].get(R['kind'], 0) + 1
            res['hashes'].add(R['hash'])
            res['orders'].add(R['order'])
            if R['fired'] or R['kind'] in ('concurrent', 'damaged', 'env'):
                res['nontrivial'] += 1
            if len(res['samples']) < 2:
                res['samples'].append('seed %d: %s' % (seed, ' / '.join(R['trace'])[:400]))
            if n % 12 == 1:
                res['rechecked'] += 1
                if w.run(seed)['hash'] != R['hash']:
                    res['mismatches'] += 1
                    res['error'] = 'seed %d is not deterministic' % seed
            if R['vio']:
                sig = R['vio'][0]
                if sig in known:
                    res['known'][sig] = res['known'].get(sig, 0) + 1
                    continue
                again = w.run(seed)
                if again['hash'] != R['hash'] or again['vio'] != R['vio']:
                    res['mismatches'] += 1
                    res['error'] = 'seed %d: %s does not happen again' % (seed, R['vio'])
                    continue
                halt.set()
                res['vio'] = minimise(w, seed, R, time.time() + mintime)
                break
        res['skipped'] = w.skipped
    except HarnessError as e:
        res['error'] = str(e)
    except Exception:
        import traceback
        res['error'] = traceback.format_exc()
    finally:
        if w:
            w.close()
    conn.send(res)
    conn.close()


def minimise(w, seed, R, end):
    sig = R['vio'][0]
    keep = list(R['fired'])
    drop = []
    best = R

    def still(kp, dr):
        x = w.run(seed, keep=set(kp), drop=dr)
        return x if x['vio'] and x['vio'][0] == sig else None
    x = still(keep, drop)
    if x is None:
        return {'seed': seed, 'keep': None, 'drop': [], 'sig': sig, 'msg': R['vio'][1], 'hash': R['hash'], 'trace': R['trace'], 'before': len(R['fired']), 'after': len(R['fired'])}
    best = x
    for g in range(4):
        if time.time() > end:
            break
        x = still(keep, drop + [g])
        if x:
            drop, best = drop + [g], x
    x = still([], drop)
    if x:
        keep, best = [], x
    size = max(1, len(keep) // 2)
    while keep and time.time() < end:
        for i in range(0, len(keep), size):
            kp = keep[:i] + keep[i + size:]
            x = still(kp, drop)
            if x:
                keep, best = kp, x
                break
        else:
            if size == 1:
                break
            size //= 2
    keep = [k for k in keep if tuple(k) in set(best['fired'])]
    best = w.run(seed, keep=set(keep), drop=drop)
    return {'seed': seed, 'keep': keep, 'drop': drop, 'sig': sig, 'msg': best['vio'][1] if best['vio'] else R['vio'][1], 'hash': best['hash'], 'trace': best['trace'], 'before': len(R['fired']), 'after': len(keep)}


def check(prop, tier, seed, secs, evidence, log, known, replays):
    t0 = time.time()
    out = build(log)
    warm_up(out)
    t1 = time.time()
    base = 1 + seed * 1000000000
    base -= base % STRIPES
    found, error, agg = None, None, None
    while True:
        halt = multiprocessing.Event()
        ws = []
        left = max(2.0, secs - (time.time() - t1))
        for k in range(STRIPES):
            a, b = multiprocessing.Pipe(False)
            p = multiprocessing.Process(target=worker, args=(k, prop, base, left, known, 40, b, halt))
            p.start()
            b.close()
            ws.append((p, a))
        rs = []
        for p, a in ws:
            try:
                rs.append(a.recv())
            except EOFError:
                error = 'a worker died'
            p.join()
        for r in rs:
            if agg is None:
                agg = r
                continue
            for k in ('runs', 'execs', 'ops', 'switches', 'rechecked', 'mismatches', 'nontrivial', 'ungated'):
                agg[k] += r[k]
            for k in ('labels', 'runs_with', 'kinds', 'status', 'known'):
                for l, c in r[k].items():
                    agg[k][l] = agg[k].get(l, 0) + c
            agg['hashes'] |= r['hashes']
            agg['orders'] |= r['orders']
            agg['samples'] = (agg['samples'] + r['samples'])[:8]
            agg['skipped'].update(r['skipped'])
            agg['last'] = max(agg['last'], r['last'])
            error = error or r['error']
            if r['vio'] and (not agg['vio'] or r['vio']['seed'] < agg['vio']['seed']):
                agg['vio'] = r['vio']
        if agg is None:
            break
        error = error or agg['error']
        if not agg['vio']:
            break
        v = agg['vio']
        os.makedirs(replays, exist_ok=True)
        path = os.path.join(replays, '%s-%d.json' % (prop, seed))
        with open(path, 'w') as f:
            json.dump(dict(v, prop=prop), f, indent=1)
        r = subprocess.run([sys.executable, os.path.join(vbuild.VERIF, 'check'), '--replay', path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 1:
            found = (v, path)
            break
        agg['ungated'] += 1
        log('seed %s: %s did not reproduce in a fresh process\n%s' % (v['seed'], v['sig'], r.stdout[-1500:]))
        agg['vio'] = None
        base = agg['last'] + STRIPES
        base -= base % STRIPES
        if time.time() - t1 > secs - 3:
            break
    if agg is None:
        log('check error: ' + str(error))
        return 2
    search = max(time.time() - t1, 0.01)
    hours = search / 3600
    faults = {l: {'fired': c, 'runs_with': agg['runs_with'][l]} for l, c in sorted(agg['labels'].items())}
    cov = {
        'evaluations': agg['runs'],
        'distinct_nontrivial': min(len(agg['hashes']), agg['nontrivial']),
        'rule': 'one evaluation = one simulated history of generator executions on one scratch directory, drawn from one seed; non-trivial = a fault fired, an input was damaged, '
                'two executions were interleaved or the environment differed; distinct = different hash of the complete operation log and final tree (the smaller count is given)',
        'samples': agg['samples'] or ['(none kept)'],
        'runs_per_hour': int(agg['runs'] / hours),
        'seeds': [base, agg['last']],
        'generator_executions': agg['execs'],
        'file_operations': agg['ops'],
        'simulated_seconds': round(agg['ops'] * 0.001, 3),
        'switches_between_executions': agg['switches'],
        'distinct_interleavings': len(agg['orders']),
        'distinct_interleavings_measure': 'hash of the sequence (execution, kind of file operation)',
        'histories_by_kind': agg['kinds'],
        'fault_decisions': faults,
        'execution_ends': agg['status'],
        'determinism': {'runs_repeated': agg['rechecked'], 'mismatches': agg['mismatches']},
        'cases_skipped': {str(k): v[:200] for k, v in agg['skipped'].items()},
        'known_findings_hit': agg['known'],
        'real_code': ['vrtgen.main, parser, C++ back end and templates in a real Python interpreter, forked per execution', 'argparse, PyYAML, jinja2 (compilation of an unchanged template is remembered)', 'the real file system below the shim'],
        'stubs': ['order, outcome and completeness of every file-system call below the scratch and package directories (seeded)', 'wall clock, process id, random numbers, directory order, sleeping', 'signals and kills'],
    }
    if found:
        cov['violation'] = {k: found[0][k] for k in ('seed', 'sig', 'msg', 'keep', 'drop')}
    evidence(prop, tier, seed, cov, time.time() - t0, ASSUME, 1 if found else 0)
    log('%s: %d histories (%d executions, %d file operations) in %.1f s (%d/h), %d fault kinds, determinism %d/%d, kinds %s' % (
        prop, agg['runs'], agg['execs'], agg['ops'], search, agg['runs'] / hours, len(faults), agg['rechecked'] - agg['mismatches'], agg['rechecked'], agg['kinds']))
    for c, t in agg['skipped'].items():
        log('case %s is not used: %s' % (c, t[:300]))
    for s, what in known.items():
        log('KNOWN-FINDING: property=%s %s (seen in %d runs)' % (prop, what, agg['known'].get(s, 0)))
    if found:
        v, path = found
        log('violation: seed %d, %s: %s' % (v['seed'], v['sig'], v['msg']))
        log('minimised: %d -> %d faults' % (v['before'], v['after']))
        log('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if error or agg['mismatches'] or agg['ungated'] or not agg['runs']:
        log('check error: %s; %d mismatching reruns, %d unreproduced failures' % (error, agg['mismatches'], agg['ungated']))
        return 2
    return 0


def replay(path):
    v = json.load(open(path))
    out = build()
    warm_up(out)
    w = World(v['seed'] % STRIPES, v['prop'])
    try:
        R = w.run(v['seed'], keep=None if v['keep'] is None else set(map(tuple, v['keep'])), drop=v['drop'], verbose=False)
    finally:
        w.close()
    print('\n'.join(R['trace']))
    if R['vio'] and R['vio'][0] == v['sig'] and R['hash'] == v['hash']:
        print('VIOLATION property=%s replay=%s' % (v['prop'], path))
        return 1
    print('result: %s hash %s, expected %s hash %s' % (R['vio'], R['hash'], v['sig'], v['hash']))
    return 3
