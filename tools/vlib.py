"""Building the code under check, running TLC, and judging recorded traces."""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SPINAS_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SPEC = os.path.join(VERIF, 'spec')
TLA = '/opt/veriftools/tla'
JARS = '%s/tla2tools.jar:%s/CommunityModules-deps.jar' % (TLA, TLA)
# Local variables start with a fixed pattern: what is never set is wrong in every run.
CXXFLAGS = ['-std=c++11', '-O3', '-w', '-DWITH_LONG_DOUBLE', '-fPIC', '-ftrivial-auto-var-init=pattern']
CORES = int(os.environ.get('VERIF_CORES', os.cpu_count() or 8))


class ToolError(Exception):
    """Something other than the code under check went wrong: the check has no verdict."""


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def read(p):
    with open(p, 'rb') as f:
        return f.read()


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.path = os.path.join(BUILD, name + '.lock')

    def __enter__(self):
        self.f = open(self.path, 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def pool(n=None):
    return cf.ThreadPoolExecutor(n or CORES)


# ---------------------------------------------------------------- building
def compile_one(src, incs, key, what, flags=CXXFLAGS):
    out = os.path.join(BUILD, 'obj', key + '.o')
    if os.path.exists(out):
        os.utime(out)
        return out
    tmp = out + '.%d.tmp' % os.getpid()
    r = subprocess.run(['g++'] + flags + ['-I' + i for i in incs] + ['-c', src, '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    if r.returncode:
        raise ToolError('cannot compile %s:\n%s' % (what, r.stdout[-3000:]))
    os.rename(tmp, out)
    return out


def driver(name, double=False):
    """Builds drivers/<name>.cpp against the current tree, on request in double precision, and returns the program."""
    flags = [f for f in CXXFLAGS if not double or f != '-DWITH_LONG_DOUBLE']
    inc, smd, drv = REPO + '/include', REPO + '/SM', VERIF + '/drivers'
    with Lock('build'):
        os.makedirs(BUILD + '/obj', exist_ok=True)
        hdr = sha(*[read(h) for h in sorted(glob.glob(inc + '/**/*', recursive=True)) if os.path.isfile(h)])
        srcs = [(s, [inc], hdr) for s in sorted(glob.glob(REPO + '/source/**/*.cpp', recursive=True))]
        if name == 'sm':
            shdr = sha(hdr, *[read(h) for h in sorted(glob.glob(smd + '/**/*.h', recursive=True))])
            srcs += [(s, [inc, smd], shdr) for s in sorted(glob.glob(smd + '/**/*.cpp', recursive=True)) if os.path.basename(s) != 'test.cpp']
            srcs.append((drv + '/sm.cpp', [inc, smd, drv], sha(shdr, *[read(h) for h in sorted(glob.glob(drv + '/*')) if not h.endswith('.cpp')])))
        elif name == 'user':
            usr = REPO + '/user-dir'
            uhdr = sha(hdr, *[read(h) for h in sorted(glob.glob(usr + '/**/*.h', recursive=True))])
            srcs.append((usr + '/eemm.cpp', [inc, usr], uhdr))
            srcs.append((drv + '/user.cpp', [inc, usr, drv], sha(uhdr, *[read(drv + '/' + h) for h in ('sm.cpp', 'trace.h', 'user_headers.inc', 'user_table.inc')])))
        else:
            srcs.append((drv + '/' + name + '.cpp', [inc, drv], sha(hdr, read(drv + '/trace.h'))))
        jobs = [(s, i, sha(read(s), k, ' '.join(flags)), s, flags) for s, i, k in srcs]
        with pool() as ex:
            objs = list(ex.map(lambda j: compile_one(*j), jobs))
        exe = os.path.join(BUILD, 'bin', name + '-' + sha(*objs))
        if not os.path.exists(exe):
            os.makedirs(BUILD + '/bin', exist_ok=True)
            r = subprocess.run(['g++', '-pthread', '-o', exe + '.tmp'] + objs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
            if r.returncode:
                raise ToolError('cannot link %s:\n%s' % (name, r.stdout[-3000:]))
            os.rename(exe + '.tmp', exe)
        else:
            os.utime(exe)
        prune(BUILD + '/bin', 8)
        prune(BUILD + '/obj', 600)
    return exe


def prune(d, keep):
    fs = sorted((os.path.join(d, f) for f in os.listdir(d)), key=lambda f: -os.path.getmtime(f))
    for f in fs[keep:]:
        os.unlink(f)


def classes():
    srcs = sorted(glob.glob(SPEC + '/java/*.java'))
    out = os.path.join(BUILD, 'classes-' + sha(*[read(s) for s in srcs]))
    with Lock('java'):
        if not os.path.isdir(out):
            tmp = tempfile.mkdtemp(dir=BUILD)
            r = subprocess.run(['javac', '-nowarn', '-cp', JARS, '-d', tmp] + srcs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
            if r.returncode:
                raise ToolError('cannot compile the evaluation of CNum:\n' + r.stdout[-2000:])
            os.rename(tmp, out)
    return out


# ---------------------------------------------------------------- TLC
class Scratch:
    def __enter__(self):
        os.makedirs(BUILD + '/run', exist_ok=True)
        self.dir = tempfile.mkdtemp(dir=BUILD + '/run')
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def tlc(module, cfg, env=None, args=(), timeout=800, heap='2g', only=None):
    """Runs TLC on spec/<module>.tla with the configuration text cfg; returns its output."""
    cls = classes()
    with Scratch() as d:
        with open(d + '/MC.cfg', 'w') as f:
            f.write(cfg)
        path = glob.glob(SPEC + '/**/' + module + '.tla', recursive=True)[0]
        if only is not None:
            with open(d + '/SMAll.tla', 'w') as f:
                f.write(project(only))
        e = dict(os.environ)
        e.update(env or {})
        cmd = ['java', '-Xmx' + heap, '-XX:+UseSerialGC', '-Xss64m', '-Djava.io.tmpdir=' + d,
               '-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:SpinasOverrides',
               '-DTLA-Library=%s:%s:%s/sm' % (d, SPEC, SPEC), '-cp', cls + ':' + JARS, 'tlc2.TLC',
               '-deadlock', '-noGenerateSpecTE', '-metadir', d + '/meta', '-config', d + '/MC.cfg'] + list(args) + [path]
        try:
            r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError('TLC on %s did not finish in %d s' % (module, timeout))
        return r.returncode, r.stdout


def sm_classes():
    return re.findall(r'^M_(\w+) == INSTANCE', open(SPEC + '/sm/SMAll.tla').read(), re.M)


def has_width(cls):
    return b'"width' in read('%s/spec/sm/P_%s.tla' % (VERIF, cls))


def project(only):
    """SMAll.tla restricted to some classes: leaves out the lines of the others."""
    keep = []
    for line in open(SPEC + '/sm/SMAll.tla').read().split('\n'):
        m = re.match(r'M_(\w+) == INSTANCE', line) or re.match(r'    \[\] cls = "(\w+)" ->', line)
        if not m or m.group(1) in only:
            keep.append(line)
    return '\n'.join(keep)


def states(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    if m:
        return int(m[-1][0]), int(m[-1][1])
    m = re.findall(r'(\d+) states generated', out) or re.findall(r'generated (\d+) states', out)
    return (int(m[-1]), 0) if m else (0, 0)


def model_check(module, cfg, **kw):
    """Exhaustive check of a model of the specification itself: anything but success is our own error."""
    rc, out = tlc(module, cfg, **kw)
    if rc != 0 or 'No error has been found' not in out:
        raise ToolError('model %s does not hold:\n%s' % (module, out[-3000:]))
    return states(out)


def generate(module, cfg, env=None, **kw):
    """Runs a generator module, which writes its scripts to the file in OUT; returns list of JSON values."""
    with Scratch() as d:
        e = dict(env or {})
        e['OUT'] = d + '/out.ndjson'
        rc, out = tlc(module, cfg, env=e, **kw)
        if rc != 0 or not os.path.exists(e['OUT']):
            raise ToolError('generator %s failed (%d):\n%s' % (module, rc, out[-3000:]))
        return [json.loads(l) for l in open(e['OUT']) if l.strip()], states(out)


# ---------------------------------------------------------------- replay and judgement
def replay(exe, script, timeout=300):
    """Replays script lines into the code; a crash or hang becomes the last event of the trace."""
    with Scratch() as d:
        with open(d + '/script', 'w') as f:
            f.write('\n'.join(script) + '\n')
        tr = d + '/trace'
        what = None
        try:
            r = subprocess.run([exe, d + '/script', tr], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, universal_newlines=True, timeout=timeout)
            if r.returncode == 3:
                raise ToolError('driver rejected its script: ' + r.stderr[-500:])
            if r.returncode != 0:
                what = 'crash'
        except subprocess.TimeoutExpired:
            what = 'hang'
        lines = [l for l in open(tr).read().split('\n') if l.endswith('}')] if os.path.exists(tr) else []
    n = len([s for s in script if s.strip() and not s.startswith('#')])
    if what is None and len(lines) != n:
        raise ToolError('driver wrote %d events for %d calls' % (len(lines), n))
    if what is not None:
        call = [s for s in script if s.strip() and not s.startswith('#')][len(lines)] if len(lines) < n else 'exit'
        lines.append(json.dumps({'op': what, 'call': call, 'k': what}, separators=(',', ':')))
    return lines


def replay_threads(exe, histories, width, ms, timeout=300):
    """Replays histories (each starting with reset) in threads, width of them at a time, each over and over
    for ms milliseconds.  Returns the histories and traces of all different records."""
    with Scratch() as d:
        with open(d + '/script', 'w') as f:
            f.write('\n'.join(c for h in histories for c in h) + '\n')
        tr, what = d + '/trace', None
        try:
            r = subprocess.run([exe, d + '/script', tr, str(width), str(ms)], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, universal_newlines=True, timeout=timeout)
            if r.returncode == 3:
                raise ToolError('driver rejected its script: ' + r.stderr[-500:])
            if r.returncode != 0:
                what = 'crash'
        except subprocess.TimeoutExpired:
            what = 'hang'
        hs, lines = [], []
        for l in open(tr).read().split('\n') if os.path.exists(tr) else []:
            if l.startswith('#'):
                hs.append(histories[int(l[1:])])
            elif l:
                lines.append(l)
    if what is not None:
        hs, lines = [['reset']], [json.dumps({'op': what, 'call': 'threads', 'k': what}, separators=(',', ':'))]
    elif len(lines) != sum(map(len, hs)):
        raise ToolError('driver wrote %d events for %d calls' % (len(lines), sum(map(len, hs))))
    return hs, lines


def judge(module, lines, env=None, consts='', timeout=800, heap='3g', only=None):
    """Validates a trace against the trace specification.  Returns (accepted, rejected events, states)."""
    with Scratch() as d:
        with open(d + '/trace.ndjson', 'w') as f:
            f.write('\n'.join(lines) + '\n')
        e = dict(env or {})
        e['TRACE'] = d + '/trace.ndjson'
        rc, out = tlc(module, 'SPECIFICATION Spec\nVIEW View\n' + consts, env=e, args=['-workers', '1'], timeout=timeout, heap=heap, only=only)
    m = re.search(r'"TRACE-END (\d+) (\d+)"', out)
    if rc != 0 or not m or int(m.group(1)) != len(lines):
        raise ToolError('trace specification %s failed (%d):\n%s' % (module, rc, out[-4000:]))
    rej = [(int(r.group(1)), r.group(2)) for r in re.finditer(r'^"REJECT (\d+) (.*)"$', out, re.M)]
    if len(rej) != int(m.group(2)):
        raise ToolError('trace specification %s: unreadable verdict\n%s' % (module, out[-4000:]))
    return rej, states(out)[0]


def points(seed):
    """Numbers behind the names of masses and momenta in spinor scripts."""
    rows, _ = generate('GenPoints', 'INIT Init\nNEXT Next\n', env={'SEED': str(seed)})
    return {r['name']: r['text'] for r in rows if r['name']}


def behaviours(module, env, plan, consts='', timeout=800, heap='3g', workers=1, only=None):
    """Behaviours of a generator state machine: list of scripts (lists of calls), and the states visited."""
    with Scratch() as d:
        e = dict(env)
        for k, v in plan.items():
            e[k] = '%s/%s.json' % (d, k)
            with open(e[k], 'w') as f:
                json.dump(v, f)
        rc, out = tlc(module, 'SPECIFICATION Spec\n' + consts, env=e, args=['-workers', str(workers)], timeout=timeout, heap=heap, only=only)
    if rc != 0 or 'No error has been found' not in out:
        raise ToolError('generator %s failed (%d):\n%s' % (module, rc, out[-3000:]))
    got = [m.group(1).split(';') for m in re.finditer(r'^"SCRIPT (.*)"$', out, re.M)]
    return got, states(out)
