"""Runs the real generator in forked children, one per simulated run, with the file system shim preloaded.

argv: socket-fd shim package-dir cache-file.  A request carries the run as JSON and four descriptors: the request and verdict pipes of
the shim, the output file and the status pipe.
"""
import ctypes, json, marshal, os, random, resource, signal, socket, struct, sys

sock = socket.socket(fileno=int(sys.argv[1]))
shim = ctypes.CDLL(sys.argv[2])
package, cache_file = sys.argv[3], sys.argv[4]
shim.vsim_activate.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_char_p, ctypes.c_char_p, ctypes.c_uint64, ctypes.c_int64, ctypes.c_int]

import atexit, gc, logging, traceback, tempfile, shutil                                     # noqa: what the generator may need
import warnings
warnings.simplefilter('ignore')
import jinja2, jinja2.ext, pkg_resources, yaml, argparse                                    # noqa
import vrtgen.main as vmain
import vrtgen.backend.cpp.generator                                                         # noqa
for _e in pkg_resources.iter_entry_points(vmain.ENTRY_POINT_ID):
    _e.load()

# compiling a template is a pure function of its source: remembered across runs
memo = {}
fresh = {}
_compile = jinja2.Environment.compile


def compile_(self, source, name=None, filename=None, raw=False, defer_init=False):
    if raw or not isinstance(source, str):
        return _compile(self, source, name, filename, raw, defer_init)
    k = (source, name)
    if k not in memo:
        memo[k] = _compile(self, source, name, filename, raw, defer_init)
        fresh[k] = memo[k]
    return memo[k]


jinja2.Environment.compile = compile_
try:
    with open(cache_file, 'rb') as f:
        memo.update(marshal.load(f))
except (OSError, ValueError, EOFError, TypeError):
    pass


def failed():
    try:
        traceback.print_exc()
    except BaseException:       # interrupted once more
        pass


def child(m, fds):
    sock.close()
    signal.signal(signal.SIGINT, signal.default_int_handler)
    resource.setrlimit(resource.RLIMIT_CPU, (60, 70))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.dup2(fds[2], 1)
    os.dup2(fds[2], 2)
    os.umask(0o022)
    os.chdir(m['cwd'])
    if os.getuid() == 0:
        try:
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
        except OSError:
            pass
    random.seed(m['seed'])
    sys.argv = ['vrtpktgen'] + m['argv']
    code = 0
    warm = m.get('warm')
    if not warm:
        shim.vsim_activate(fds[0], fds[1], m['scratch'].encode(), package.encode(), m['seed'], m['shift'], m['pid'])
    try:
        try:
            vmain.main()
            gc.collect()
        except SystemExit as e:
            if e.code is None:
                code = 0
            elif isinstance(e.code, int):
                code = e.code & 255
            else:
                print(e.code, file=sys.stderr)
                code = 1
        except KeyboardInterrupt:
            code = 130
            failed()
        except BaseException:
            code = 1
            failed()
        try:
            gc.collect()
            atexit._run_exitfuncs()
            sys.stdout.flush()
            sys.stderr.flush()
        except KeyboardInterrupt:
            code = code or 130
        except BaseException:
            code = code or 120
        if warm:
            with open(m['warm'], 'wb') as f:
                marshal.dump({k: v for k, v in fresh.items()}, f)
    finally:
        os._exit(code)


def serve():
    while True:
        data, fds, _, _ = socket.recv_fds(sock, 1 << 20, 4)
        if not data:
            return
        m = json.loads(data)
        if m.get('save'):
            tmp = cache_file + '.tmp%d' % os.getpid()
            with open(tmp, 'wb') as f:
                marshal.dump(memo, f)
            os.replace(tmp, cache_file)
            sock.send(b'saved')
            continue
        if m.get('learn'):
            with open(m['learn'], 'rb') as f:
                memo.update(marshal.load(f))
            sock.send(b'known')
            continue
        sup = os.fork()
        if sup == 0:
            try:
                signal.signal(signal.SIGCHLD, signal.SIG_DFL)
                p = os.fork()
                if p == 0:
                    os.close(fds[3])
                    child(m, fds)
                for x in fds[:3]:
                    os.close(x)
                os.write(fds[3], struct.pack('i', p))
                st = os.waitpid(p, 0)[1]
                os.write(fds[3], struct.pack('i', st))
            finally:
                os._exit(0)
        for x in fds:
            os.close(x)


signal.signal(signal.SIGCHLD, signal.SIG_IGN)
gc.collect()
gc.freeze()
sock.send(b'ready')
serve()
