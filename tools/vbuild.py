"""Builds the simulator binary from /repo's current working tree (no network, nothing kept outside /verif/build)."""
import hashlib, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VRTGEN_REPO', '/repo')
PY = '/opt/vrtgen-venv/bin/python' if os.path.exists('/opt/vrtgen-venv/bin/python') else sys.executable
BUILD = os.path.join(VERIF, 'build')
SYSTEMS = {'nu': 'udp', 'nt': 'tcp', 'nn': 'nats', 'np': None}      # np: packet classes only
JOBS = os.cpu_count() or 4


class BuildError(Exception):
    pass


def _files(*roots):
    for root in roots:
        if os.path.isfile(root):
            yield root
            continue
        for d, dirs, fs in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x != '__pycache__' and not x.endswith('.egg-info'))
            for f in sorted(fs):
                if not f.endswith('.pyc'):
                    yield os.path.join(d, f)


def digest(extra, *roots):
    h = hashlib.sha256(extra.encode())
    for p in _files(*roots):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:16]


def run(cmd, cwd=None, env=None, what=None):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if r.returncode:
        raise BuildError('%s failed (%d):\n%s' % (what or ' '.join(cmd[:3]), r.returncode, r.stdout[-4000:]))
    return r.stdout


def generator_env(into):
    """A private importable copy of the generator, with its entry point metadata."""
    if not os.path.isdir(into):
        tmp = into + '.tmp%d' % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        shutil.copytree(os.path.join(REPO, 'src'), os.path.join(tmp, 'src'), ignore=shutil.ignore_patterns('__pycache__', '*.egg-info'))
        for f in ('setup.py', 'setup.cfg', 'README.md'):
            if os.path.exists(os.path.join(REPO, f)):
                shutil.copy(os.path.join(REPO, f), tmp)
        run([PY, '-W', 'ignore', 'setup.py', '-q', 'egg_info'], cwd=tmp, what='egg_info')
        os.rename(tmp, into)
    env = dict(os.environ)
    env['PYTHONPATH'] = os.path.join(into, 'src')
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['PYTHONHASHSEED'] = '0'
    return env


def build(variant='asan', systems=('nu', 'nt', 'nn', 'np'), log=None):
    """Returns the path of the simulator binary for this variant and these generated systems."""
    t0 = time.time()
    flags = {
        'asan': ['-fsanitize=address', '-D_GLIBCXX_ASSERTIONS'],
        'tsan': ['-fsanitize=thread', '-DVSIM_TSAN'],
    }[variant]
    opt = {'asan': '-O0', 'tsan': '-O0'}[variant]
    # the paths are not part of the key: the same contents give the same binary wherever they lie
    key = digest(variant + ' '.join(systems), os.path.join(REPO, 'src'), os.path.join(REPO, 'include'), os.path.join(VERIF, 'sim'),
                 os.path.join(VERIF, 'gen'), os.path.join(VERIF, 'harness'), os.path.abspath(__file__))
    out = os.path.join(BUILD, '%s-%s-%s' % (variant, '+'.join(systems) or 'lib', key))
    exe = os.path.join(out, 'vh')
    if os.path.exists(exe):
        return exe
    tmp = out + '.tmp%d' % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(os.path.join(tmp, 'o'))
    std = ['g++', '-std=c++20', '-g1', '-fPIC', '-Wall', '-Wno-unused', '-I' + os.path.join(VERIF, 'harness'), '-I' + os.path.join(VERIF, 'sim'),
           '-I' + os.path.join(REPO, 'include'), '-I' + tmp]
    jobs = []       # (weight, command)

    def obj(name):
        return os.path.join(tmp, 'o', name + '.o')

    plain = []
    # race detection: only the library and the generated code are instrumented; the linker takes the first copy of an
    # inline function, so instrumented objects go first
    harness = flags if variant != 'tsan' else ['-DVSIM_TSAN']
    for f in sorted(os.listdir(os.path.join(VERIF, 'sim'))):
        if f.endswith('.cpp'):
            plain.append((3, std + ['-O1'] + harness + ['-c', os.path.join(VERIF, 'sim', f), '-o', obj('z_sim_' + f[:-4])]))
    for f in sorted(os.listdir(os.path.join(VERIF, 'harness'))):
        if f.endswith('.cpp'):
            plain.append((9, std + ['-O1' if variant == 'asan' else '-O0'] + harness + ['-c', os.path.join(VERIF, 'harness', f), '-o', obj('z_h_' + f[:-4])]))
    if variant == 'tsan':
        plain.append((9, std + [opt] + flags + ['-fkeep-static-functions', '-c', os.path.join(VERIF, 'harness', 'race', 'uses.cpp'), '-o', obj('a_uses')]))
    ex = ThreadPoolExecutor(JOBS)
    pend = []
    try:
        if systems:
            env = generator_env(os.path.join(tmp, 'py'))
            run([sys.executable, os.path.join(VERIF, 'gen', 'emit.py'), tmp], what='emit')

            def gen(ns):
                project = ['--project', '--cmd-socket', SYSTEMS[ns]] if SYSTEMS[ns] else []
                run([PY, '-W', 'ignore', '-m', 'vrtgen.main', 'cpp', *project, '--dir', 'g_' + ns, '--namespace', ns, ns + '.yaml'],
                    cwd=tmp, env=env, what='vrtgen ' + ns)
                if not project:
                    if not os.path.isdir(os.path.join(tmp, 'g_' + ns)):
                        raise BuildError('the generator produced nothing for %s.yaml' % ns)
                    return
                pk = os.path.join(tmp, 'g_' + ns, 'src', 'packets')
                if not os.path.isdir(pk):
                    raise BuildError('the generator produced nothing for %s.yaml' % ns)
                run([sys.executable, os.path.join(VERIF, 'gen', 'controllee.py'), ns, os.path.join(tmp, 'g_' + ns), os.path.join(tmp, ns + '_controllee.h')], what='controllee.py')
            gens = [ex.submit(gen, ns) for ns in systems]
            for g in gens:
                g.result()
            for ns in systems:
                inc = ['-I' + os.path.join(tmp, 'g_' + ns, 'include', 'packets'), '-I' + os.path.join(tmp, 'g_' + ns, 'include')]
                pk = os.path.join(tmp, 'g_' + ns, 'src', 'packets')
                if not SYSTEMS[ns]:
                    pk = os.path.join(tmp, 'g_' + ns)
                    inc = ['-I' + pk]
                for f in sorted(os.listdir(pk)):
                    if f.endswith('.cpp'):
                        src = os.path.join(pk, f)
                        w = os.path.getsize(src) / 20000.0
                        jobs.append((w, std + [opt] + flags + inc + ['-c', src, '-o', obj('%s_%s' % (ns, f[:-4]))]))
                jobs.append((100, std + [opt] + flags + inc + ['-c', os.path.join(tmp, ns + '_adapter.cpp'), '-o', obj(ns + '_adapter')]))
        jobs += plain
        jobs.sort(key=lambda j: -j[0])
        pend = [ex.submit(run, j[1], None, None, 'compile ' + j[1][-3]) for j in jobs]
        errs = []
        for p in pend:
            try:
                p.result()
            except BuildError as e:
                errs.append(str(e))
        if errs:
            raise BuildError('\n'.join(errs[:3]))
    finally:
        for p in pend:
            p.cancel()
        ex.shutdown(wait=True)
    run(['g++'] + [f for f in flags if f.startswith('-fsan')] + ['-rdynamic'] + sorted(os.path.join(tmp, 'o', f) for f in os.listdir(os.path.join(tmp, 'o'))) +
        ['-o', os.path.join(tmp, 'vh'), '-lpthread', '-ldl'], what='link')
    shutil.rmtree(os.path.join(tmp, 'o'))
    shutil.rmtree(os.path.join(tmp, 'py'), ignore_errors=True)
    shutil.rmtree(out, ignore_errors=True)
    os.rename(tmp, out)
    # keep the directory small: drop older builds of the same kind
    kind = '%s-%s-' % (variant, '+'.join(systems) or 'lib')
    old = sorted((d for d in os.listdir(BUILD) if d.startswith(kind) and '.tmp' not in d and d != os.path.basename(out)),
                 key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
    for d in old[:-2]:
        shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    if log:
        log('built %s in %.1f s' % (os.path.basename(out), time.time() - t0))
    return exe


if __name__ == '__main__':
    print(build(sys.argv[1] if len(sys.argv) > 1 else 'asan', tuple(sys.argv[2].split('+')) if len(sys.argv) > 2 else ('nu', 'nt', 'nn', 'np'), log=print))
