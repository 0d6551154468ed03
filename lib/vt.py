"""Common machinery of the checks: building the tool from /repo's working tree,
running its command line, running TLC, writing evidence and replay files.

Exit codes of a check: 0 held, 1 violation (with a VIOLATION line), 2 error of the check.
"""
import glob
import hashlib
import concurrent.futures
import fcntl
import json
import os
import random
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
BUILD = os.path.join(VERIF, 'build')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
T0 = time.time()


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, msg, replay):
        Exception.__init__(self, msg)
        self.replay = replay


def log(*args):
    print('[%6.1fs]' % (time.time() - T0), *args, flush=True)


# ------------------------------------------------------------------ build

def tree_hash():
    """What the tool is built from."""
    h = hashlib.sha256()
    for top, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ('.git', 'target'))
        for f in sorted(files):
            p = os.path.join(top, f)
            if f.endswith(('.rs', '.toml', '.lock')) and os.path.isfile(p):
                with open(p, 'rb') as x:
                    h.update(p.encode() + b'\0' + x.read() + b'\0')
    return h.hexdigest()


def build():
    """Builds the command line tool from /repo's working tree (opt-level 1, with
    overflow checks and debug assertions) and returns its path."""
    os.makedirs(BUILD, exist_ok=True)
    target = os.path.join(BUILD, 'target')
    env = dict(os.environ)
    env.update(HOME='/root', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu',
               CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='0',
               CARGO_TARGET_DIR=target, CARGO_PROFILE_DEV_OPT_LEVEL='1',
               CARGO_PROFILE_DEV_DEBUG='0', CARGO_PROFILE_DEV_OVERFLOW_CHECKS='true',
               CARGO_PROFILE_DEV_DEBUG_ASSERTIONS='true', RUSTC_WRAPPER='')
    env['PATH'] = '/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    with open(os.path.join(BUILD, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        # cargo goes by modification times; a tree of the same age must be built all the same
        stamp, now = os.path.join(BUILD, 'stamp'), tree_hash()
        old = open(stamp).read() if os.path.exists(stamp) else ''
        if old != now:
            if old:
                os.unlink(stamp)
            for f in glob.glob(os.path.join(target, 'debug', '.fingerprint', 'midi2spc-*')):
                shutil.rmtree(f)
        r = subprocess.run(['cargo', 'build', '--offline', '--locked', '--bin', 'midi2spc',
                            '--manifest-path', os.path.join(REPO, 'Cargo.toml')],
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise ToolError('cargo build failed:\n' + r.stdout[-3000:])
        with open(stamp, 'w') as f:
            f.write(now)
        dst = os.path.join(BUILD, 'bin-%d' % os.getpid())
        shutil.copy2(os.path.join(target, 'debug', 'midi2spc'), dst)
    return dst


class Outcome:
    """What one run of the tool did."""
    __slots__ = ('code', 'out', 'err', 'timeout')

    def __init__(self, code, out, err, timeout):
        self.code, self.out, self.err, self.timeout = code, out, err, timeout

    @property
    def kind(self):
        if self.timeout:
            return 'hang'
        if self.code == 0:
            return 'ok'
        if self.code == 1:
            return 'error'
        return 'crash'

    def tail(self):
        return self.err.decode('utf-8', 'replace').strip()[-600:]


def _limits(fsize, mem):
    def f():
        if fsize is not None:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    return f


class Tool:
    def __init__(self):
        self.path = build()
        self.runs = 0

    def close(self):
        try:
            os.unlink(self.path)
        except OSError:
            pass

    def run(self, args, cwd=None, timeout=60, fsize=None, mem=6 << 30):
        env = {'PATH': '/usr/bin:/bin', 'HOME': '/nonexistent', 'RUST_BACKTRACE': '0', 'TERM': 'dumb'}
        p = subprocess.Popen([self.path] + [str(a) for a in args], cwd=cwd, env=env,
                             stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, restore_signals=False,
                             preexec_fn=_limits(fsize, mem), start_new_session=True)
        self.runs += 1
        try:
            out, err = p.communicate(timeout=timeout)
            return Outcome(p.returncode, out, err, False)
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = p.communicate()
            return Outcome(p.returncode, out, err, True)


def pmap(f, items, workers=8):
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        return list(ex.map(f, items))


# ------------------------------------------------------------------ scratch

class Scratch:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix='scratch-%s-' % name, dir=BUILD)

    def path(self, *parts):
        p = os.path.join(self.dir, *parts)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def close(self):
        if os.path.realpath(self.dir).startswith(os.path.realpath(BUILD) + os.sep):
            shutil.rmtree(self.dir, ignore_errors=True)


# ------------------------------------------------------------------ TLC

class TlcResult:
    def __init__(self):
        self.ok = False
        self.generated = 0
        self.distinct = 0
        self.initial = 0
        self.depth = 0
        self.violated = None     # name of the violated invariant / property / 'deadlock'
        self.state = {}          # variable -> printed value in the last state of the trace
        self.trace = ''
        self.prints = []
        self.out = ''
        self.wall = 0.0


RE_STATES = re.compile(r'(\d[\d,]*) states generated, (\d[\d,]*) distinct states found')


def tlc(module, cfg, env=None, workers=8, timeout=840, heap='6g', extra=()):
    """Runs TLC on spec/<module>.tla with the given cfg text. Returns a TlcResult;
    raises ToolError when TLC itself fails."""
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix='tlc-', dir=BUILD)
    res = TlcResult()
    t0 = time.time()
    try:
        cfgpath = os.path.join(work, module + '.cfg')
        with open(cfgpath, 'w') as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC', '-Djava.io.tmpdir=' + work,
               '-DTLA-Library=' + SPEC, '-cp', JAR, 'tlc2.TLC', '-config', cfgpath,
               '-metadir', os.path.join(work, 'meta'), '-workers', str(workers),
               '-noGenerateSpecTE', '-nowarning', '-checkpoint', '0', *extra,
               os.path.join(SPEC, module + '.tla')]
        try:
            r = subprocess.run(cmd, env=e, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, start_new_session=True)
        except subprocess.TimeoutExpired:
            raise ToolError('TLC timed out on %s' % module)
        out = r.stdout.decode('utf-8', 'replace')
        res.out = out
        for m in RE_STATES.finditer(out):
            res.generated = int(m.group(1).replace(',', ''))
            res.distinct = int(m.group(2).replace(',', ''))
        m = re.search(r'Finished computing initial states: (\d+)', out)
        if m:
            res.initial = int(m.group(1))
        m = re.search(r'depth of the complete state graph search is (\d+)', out)
        if m:
            res.depth = int(m.group(1))
        res.prints = re.findall(r'^<<"@", .*>>$', re.sub(r'^<< "@",\n +(".*") >>$', r'<<"@", \1>>', out, flags=re.M), re.M)
        if 'Model checking completed. No error has been found.' in out or \
                ('-simulate' in extra and 'traces generated' in out and 'Error' not in out):
            res.ok = True
        else:
            m = re.search(r'Invariant (\w+) is violated|Action property (\w+) is violated', out)
            if m:
                res.violated = m.group(1) or m.group(2)
            elif 'Deadlock reached' in out:
                res.violated = 'deadlock'
            elif re.search(r'Temporal properties were violated', out):
                res.violated = 'temporal'
            elif re.search(r'Invariant (\w+) is violated by the initial state', out):
                res.violated = 'init'
            else:
                raise ToolError('TLC failed on %s (exit %d):\n%s' % (module, r.returncode, out[:1500] + ' ... ' + out[-1500:]))
            i = out.rfind('\nState ')
            j = out.find('\n\n', i)
            res.trace = out[i:j if j > 0 else None].strip()
            var = None
            for line in res.trace.splitlines()[1:]:
                m = re.match(r'/\\ (\w+) = (.*)$', line)
                if m:
                    var = m.group(1)
                    res.state[var] = m.group(2)
                elif var:
                    res.state[var] += ' ' + line.strip()
            if not res.state:   # single-variable specs and initial states print without /\
                for line in out.splitlines():
                    m = re.match(r'(?:/\\ )?(\w+) = (.*)$', line)
                    if m:
                        res.state[m.group(1)] = m.group(2)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    res.wall = time.time() - t0
    return res


# ------------------------------------------------------------------ check skeleton

class Check:
    """One property check. Subclasses / users call count(), sample(), violation(), finish()."""

    def __init__(self, prop):
        self.prop = prop
        self.rng = random.Random('%s/%d/%s' % (prop, SEED, TIER))
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.assumptions = []
        self.violations = 0
        self.tool = None
        self.scratch = Scratch(prop)

    def count(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v

    def sample(self, s):
        if len(self.cov['samples']) < 6:
            self.cov['samples'].append(s)

    def tlc(self, module, cfg, **kw):
        r = tlc(module, cfg, **kw)
        self.cov['states'] += r.distinct
        self.cov['transitions'] += max(0, r.generated - r.initial)
        log('TLC %s: %d states, %d generated, %.1fs%s' %
            (module, r.distinct, r.generated, r.wall, '' if r.ok else ' VIOLATED ' + str(r.violated)))
        return r

    def write_evidence(self):
        ev = {'property': self.prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick',
              'seed': SEED, 'level': 'model_checking', 'coverage': self.cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - T0, 2),
              'violations': self.violations}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)

    def violation(self, what, data, files=()):
        """Records a violation: writes a replay folder with what is needed to reproduce it."""
        d = os.path.join(VERIF, 'replays', '%s-%d-%d' % (self.prop, SEED, os.getpid()))
        os.makedirs(d, exist_ok=True)
        for f in files:
            if os.path.exists(f):
                shutil.copy2(f, d)
        with open(os.path.join(d, 'violation.json'), 'w') as f:
            json.dump({'property': self.prop, 'what': what, 'data': data}, f, indent=1, default=str)
        self.violations += 1
        raise Violation(what, d)


def known_finding(chk, key, fails):
    """Whether a failing input is one listed in known_findings.txt; says so if it is."""
    if not fails:
        return False
    with open(os.path.join(VERIF, 'known_findings.txt')) as f:
        for line in f:
            m = re.match(r'known: property=(\S+) input=(\S+) (.*)', line)
            if m and m.group(1) == chk.prop and m.group(2) == key:
                print('KNOWN-FINDING: property=%s %s' % (chk.prop, m.group(3)), flush=True)
                chk.count(known_findings=1)
                return True
    return False


def main(prop, body):
    chk = None
    code = 2
    try:
        chk = Check(prop)
        chk.tool = Tool()
        log('built')
        body(chk)
        chk.cov['tool_runs'] = chk.tool.runs
        chk.write_evidence()
        log('%s held: %s' % (prop, json.dumps({k: v for k, v in chk.cov.items() if k != 'samples'})))
        code = 0
    except Violation as v:
        chk.cov['tool_runs'] = chk.tool.runs if chk.tool else 0
        chk.write_evidence()
        print('violation of %s: %s' % (prop, v), flush=True)
        print('VIOLATION property=%s replay=%s' % (prop, v.replay), flush=True)
        code = 1
    except ToolError as e:
        print('ERROR of the check: %s' % e, flush=True)
    except Exception:
        print('ERROR of the check:\n%s' % traceback.format_exc(), flush=True)
    finally:
        if chk:
            chk.scratch.close()
            if chk.tool:
                chk.tool.close()
    sys.exit(code)
