"""Shared machinery: build the harness from /repo's working tree, run TLC on a specification, replay the
behaviours it emits into the real parser, and decide."""
import json, os, subprocess, sys, hashlib, glob, time, fcntl, shutil, tempfile, re, collections

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
WORK = os.path.join(VERIF, '.work')
HARNESS = os.environ.get('VERIF_HARNESS', os.path.join(VERIF, 'harness'))
TLA = '/opt/veriftools/tla'


class ToolError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- build
def codegen_hash():
    h = hashlib.sha256()
    fs = [f'{REPO}/src/parser/parse.y', f'{REPO}/src/parser/parse.rs', f'{REPO}/src/reserved_words/list.rs',
          f'{REPO}/build.rs'] + sorted(glob.glob(f'{REPO}/codegen/**/*.rs', recursive=True))
    for f in fs:
        h.update(f.encode())
        try:
            h.update(open(f, 'rb').read())
        except OSError:
            h.update(b'MISSING')
    return h.hexdigest()


def build():
    os.makedirs(WORK, exist_ok=True)
    target = os.path.join(HARNESS, 'target')
    os.makedirs(target, exist_ok=True)
    lock = open(os.path.join(WORK, 'build.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    state = os.path.join(target, 'codegen.sha256')
    if not os.path.exists(state) or open(state).read() != codegen_hash():
        for f in ('src/parser/parse.rs', 'src/reserved_words/list.rs'):
            try:
                os.remove(os.path.join(REPO, f))
            except OSError:
                pass
        if os.path.exists(state):
            os.remove(state)
        os.utime(os.path.join(REPO, 'src/parser/parse.y'))
    env = dict(os.environ)
    env.setdefault('CARGO_HOME', '/root/.cargo')
    env.setdefault('RUSTUP_HOME', '/root/.rustup')
    env['PATH'] = env['CARGO_HOME'] + '/bin:' + env.get('PATH', '/usr/local/bin:/usr/bin:/bin')
    env['RUSTUP_TOOLCHAIN'] = 'stable-x86_64-unknown-linux-gnu'
    env['CARGO_NET_OFFLINE'] = 'true'
    env.pop('RUSTFLAGS', None)
    p = subprocess.run(['cargo', 'build', '--offline', '--manifest-path', os.path.join(HARNESS, 'Cargo.toml'),
                        '--target-dir', target], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError('cargo build failed:\n' + p.stdout[-4000:])
    open(state, 'w').write(codegen_hash())
    fcntl.flock(lock, fcntl.LOCK_UN)
    return os.path.join(target, 'debug', 'rbh')


# ---------------------------------------------------------------- TLC
def tla_val(v):
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, str):
        return '"' + v.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n').replace('\t', '\\t').replace('\r', '\\r') + '"'
    if isinstance(v, (set, frozenset, list)):
        return '{' + ', '.join(sorted(tla_val(x) for x in v)) + '}'
    if isinstance(v, tuple):
        return '<<' + ', '.join(map(tla_val, v)) + '>>'
    return str(v)


def txt(v):
    """Text is emitted as nested sequences of strings."""
    return v if isinstance(v, str) else ''.join(map(txt, v))


def untuple(r):
    for k in ('s', 'x', 'o', 'xm'):
        if k in r:
            r[k] = txt(r[k])
        if k in ('x', 'xm') and k in r and not r[k].isascii():
            r[k] = ''.join(c if ord(c) < 128 else '\\x%02x' % ord(c) for c in r[k])
    for k in ('L', 'Lm', 'at', 'na'):
        if k in r:
            r[k] = [[txt(l[0]), l[1], l[2]] for l in r[k]]
    if 'W' in r:  # the warnings, stated as ranges of nodes
        r['M'] = [f"warning {txt(l[0]).split('!', 1)[1]}@{l[1]}-{l[2]}" for l in r.pop('W')]
    return r


import itertools
SERIAL = itertools.count()
STATS = re.compile(r'([\d,]+) states generated, ([\d,]+) distinct states found')


def run_tlc(module, consts=None, invariants=('Emit',), scratch=None, workers=8, simulate=None, depth=None, seed=1,
            timeout=800, env=None, properties=(), heap='10g'):
    """Model-checks spec/<module>.tla. Returns (list of emitted records, stats)."""
    scratch = scratch or tempfile.mkdtemp(dir=WORK)
    tag = module + '-' + hashlib.md5(json.dumps([consts and sorted((k, str(v)) for k, v in consts.items())]).encode()).hexdigest()[:6] + f'-{next(SERIAL)}'
    cfg = os.path.join(scratch, tag + '.cfg')
    with open(cfg, 'w') as f:
        f.write('INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n')
        for i in invariants:
            f.write(f'INVARIANT {i}\n')
        for i in properties:
            f.write(f'PROPERTY {i}\n')
        for k, v in (consts or {}).items():
            f.write(f'CONSTANT {k} <- mc_{k}\n')
    mc = 'MC_' + tag.replace('-', '_')
    with open(os.path.join(scratch, mc + '.tla'), 'w', encoding='utf-8') as f:
        f.write(f'---- MODULE {mc} ----\nEXTENDS {module}\n')
        for k, v in (consts or {}).items():
            f.write(f'mc_{k} == {tla_val(v)}\n')
        f.write('====\n')
    out = os.path.join(scratch, tag + '.out')
    cmd = ['java', '-Dfile.encoding=UTF-8', '-Dsun.stdout.encoding=UTF-8', '-Dstdout.encoding=UTF-8', '-XX:+UseParallelGC' if workers > 1 else '-XX:+UseSerialGC',
           '-Xmx' + heap, '-Xss16m', '-Djava.io.tmpdir=' + scratch, '-DTLA-Library=' + os.path.join(VERIF, 'spec'),
           '-cp', f'{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar', 'tlc2.TLC',
           '-workers', str(workers), '-metadir', os.path.join(scratch, tag + '.meta'), '-noGenerateSpecTE',
           '-fp', '1', '-config', cfg]
    if simulate:
        cmd += ['-simulate', f'num={simulate}', '-seed', str(seed)]
        if depth:
            cmd += ['-depth', str(depth)]
    cmd.append(os.path.join(scratch, mc + '.tla'))
    t0 = time.time()
    e = dict(os.environ)
    e.update(env or {})
    with open(out, 'w') as f:
        try:
            p = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, cwd=scratch, env=e)
        except subprocess.TimeoutExpired:
            raise ToolError(f'TLC timed out on {module}')
    recs = []
    tail = collections.deque(maxlen=60)
    stats = dict(module=module, states=0, transitions=0, wall=round(time.time() - t0, 2))
    with open(out, encoding='utf-8') as f:
        for l in f:
            if l.startswith('"{'):
                try:
                    recs.append(untuple(json.loads(json.loads(l))))
                except ValueError:
                    raise ToolError("unreadable: " + l)
            else:
                tail.append(l)
                m = STATS.search(l)
                if m:
                    stats['transitions'] = int(m.group(1).replace(',', ''))
                    stats['states'] = int(m.group(2).replace(',', ''))
    if p.returncode != 0:
        raise ToolError(f'TLC failed on {module} (rc {p.returncode}):\n' + ''.join(tail))
    if simulate and not stats['states']:
        stats['states'] = len(recs)
        stats['transitions'] = len(recs)
    shutil.rmtree(os.path.join(scratch, tag + '.meta'), ignore_errors=True)
    os.remove(out)
    return recs, stats


# ---------------------------------------------------------------- harness
def tobytes(s):
    """Specification text -> bytes. Characters up to U+00FF stand for that byte; control characters, which
    cannot be written in a specification, as U+0100 plus their code."""
    return s.encode('latin1') if s.isascii() else bytes(ord(c) if ord(c) < 256 else ord(c) - 256 for c in s)


def unesc(v):
    """A value printed by the harness -> specification text."""
    import re
    v = re.sub(r'\\x([0-9a-f]{2})', lambda m: chr(int(m.group(1), 16)), v)
    return ''.join(c if ord(c) >= 32 or c in '\n\t\r\f' else chr(256 + ord(c)) for c in v)


def run_harness(binary, cases, scratch, hang=30, threads=8):
    """cases: list of (opts, bytes). Returns list of observation dicts."""
    fin = os.path.join(scratch, 'h.in')
    fout = os.path.join(scratch, 'h.out')
    with open(fin, 'w') as f:
        for i, (o, b) in enumerate(cases):
            if not o.isascii():
                o = o.encode('latin1').decode('utf-8')
            f.write(f'{i}\t{o}\t{b.hex()}\n')
    if os.path.exists(fout):
        os.remove(fout)
    try:
        p = subprocess.run([binary, fin, fout, str(threads), str(hang)], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=800)
    except subprocess.TimeoutExpired:
        raise ToolError('harness timed out')
    if p.returncode == 3:  # a parse did not terminate
        res = [None] * len(cases)
        for l in open(fout):
            i, j = l.split('\t', 1)
            res[int(i)] = json.loads(j)
        return res
    if p.returncode != 0:
        # The process died (stack overflow, abort): find the case by bisection with one thread.
        return bisect_abort(binary, cases, scratch, hang)
    res = [None] * len(cases)
    with open(fout, encoding='utf-8') as f:
        for l in f:
            i, j = l.rstrip('\n').split('\t', 1)
            res[int(i)] = json.loads(j)
    os.remove(fin)
    os.remove(fout)
    return res


def bisect_abort(binary, cases, scratch, hang):
    def dies(lo, hi):
        fin = os.path.join(scratch, 'b.in')
        with open(fin, 'w') as f:
            for i in range(lo, hi):
                f.write(f'{i}\t{cases[i][0]}\t{cases[i][1].hex()}\n')
        p = subprocess.run([binary, fin, os.path.join(scratch, 'b.out'), '8', str(hang)], stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL, timeout=800)
        return p.returncode not in (0,)
    lo, hi = 0, len(cases)
    if not dies(lo, hi):
        raise ToolError('harness died once and not again')
    while hi - lo > 1:
        mid = (lo + hi) // 2
        if dies(lo, mid):
            hi = mid
        else:
            lo = mid
    res = [None] * len(cases)
    res[lo] = {'panic': 'process aborted'}
    return res


# ---------------------------------------------------------------- comparison
def dname(m):
    return re.split(r'[ {]', m, maxsplit=1)[0]


ADJ = re.compile(r"Str\('([^']*)'\) Str\('([^']*)'\)")


def merge_str(x):
    """Adjacent Str parts count as one: how text is split into parts is not part of the contract."""
    while True:
        y = ADJ.sub(lambda m: "Str('" + m.group(1) + m.group(2) + "')", x)
        if y == x:
            return x
        x = y


def merge_locs(ls):
    spans = sorted(tuple(map(int, l.split('@')[1].split('-'))) for l in ls if l.startswith('Str.expression_l@'))
    out = []
    for b, e in spans:
        if out and out[-1][1] == b:
            out[-1][1] = e
        else:
            out.append([b, e])
    return sorted([l for l in ls if not l.startswith('Str.expression_l@')] + [f'Str.expression_l@{b}-{e}' for b, e in out])


VIEW = {'E1': 'd', 'once': 'd', 'e1': 'd', 'D1w': 'd', 'at': 'l', 'na': 'l', 'xm': 'a', 'Lm': 'l', 'x': 'a', 'L': 'l', 'd': 'd', 'D': 'd', 'M': 'd', 'ok': 'd', 'err': 'd', 'w': 'd', 'e': 'd', 't': 't', 'T': 't', 'c': 'c', 'm': 'm', 'b': 'b', 'dl': 'b', 'bt': 'b', 'dn': 'b', 'sub': 'i', 'rd': 'i',
        'oob': '', 'silent': '', 'diff': '', 'left': '', 'acc': '', 'g': 'd', 'lines': 'i', 'lc': 'i', 'xl': 'i', 'src': 'i', 'r': 'r', 'q': '', 'rw': '', 'n': 'n'}


def views_for(case):
    return ''.join(sorted({VIEW[k] for k in case if k in VIEW} - {''}))


def project(key, obs):
    """Observation of the real parse, in the form the specification states it."""
    if key == 'x':
        return obs['x']
    if key == 'xm':
        return merge_str(obs['x'])
    if key == 'Lm':
        return merge_locs(obs['L'])
    if key == 'L':
        return sorted(obs['L'])
    if key == 'd':
        return sorted(f'{d[0]} {dname(d[1])}' for d in obs['d'])
    if key == 'D':
        return sorted(f'{d[0]} {dname(d[1])}@{d[2]}-{d[3]}' for d in obs['d'])
    if key == 'M':
        return sorted(f'{d[0]} {d[4]}@{d[2]}-{d[3]}' for d in obs['d'])
    if key == 'g':  # level and full text of every diagnostic
        return sorted(f'{d[0]} {d[4]}' for d in obs['d'])
    if key in ('e1', 'D1w'):  # first error / warning: kind and range
        lv = 'error' if key == 'e1' else 'warning'
        for d in obs['d']:
            if d[0] == lv and (key == 'e1' or dname(d[1]) in ('EndInMethod',)):
                return [dname(d[1]), d[2], d[3]]
        return []
    if key == 'E1':  # message and range of the first error
        return next((f'{d[4]}@{d[2]}-{d[3]}' for d in obs['d'] if d[0] == 'error'), None)
    if key == 'once':  # no diagnostic is reported twice
        return len({tuple(d) for d in obs['d']}) == len(obs['d'])
    if key == 'ok':
        return not any(d[0] == 'error' for d in obs['d'])
    if key == 'e':
        return sorted({dname(d[1]) for d in obs['d'] if d[0] == 'error'})
    if key == 'w':
        return sorted(dname(d[1]) for d in obs['d'] if d[0] == 'warning')
    if key == 't':
        return [t[0] for t in obs['t']]
    if key == 'T':
        return obs['t']
    if key in ('lc', 'xl', 'src'):
        return ['-' if x is None else x for x in obs[key]]
    return obs.get(key)


def expected(key, exp):
    if key == 'xm':
        return merge_str(exp)
    if key == 'Lm':
        return merge_locs([f'{l[0]}@{l[1]}-{l[2]}' for l in exp])
    if key == 'L':
        return sorted(f'{l[0]}@{l[1]}-{l[2]}' for l in exp)
    if key in ('d', 'D', 'w', 'M', 'e', 'g'):
        return sorted(exp)
    return exp


def esc(t):
    return ''.join(chr(b) if 32 <= b < 127 and b not in (39, 92) else '\\x%02x' % b for b in tobytes(t))


def compare(case, obs):
    """None, or (key, expected, actual)."""
    if obs is None:
        return None
    if 'panic' in obs:
        return ('panic', 'no panic', obs['panic'])
    if 'hang' in obs:
        return ('hang', 'termination', 'no result')
    for k, v in case.items():
        if k not in VIEW:
            continue
        if k == 'err':  # at least one error of each listed kind
            names = {dname(d[1]) for d in obs['d'] if d[0] == 'error'}
            if not set(v) <= names:
                return (k, v, sorted(names))
            continue
        if k in ('at', 'na'):  # locations that must (not) be among the reported ones
            have = collections.Counter(obs['L'])
            want = collections.Counter(f'{l[0]}@{l[1]}-{l[2]}' for l in v)
            bad = want - have if k == 'at' else want & have
            if bad:
                return (k, sorted(bad), sorted(x for x in have if int(x.rsplit('-', 1)[1]) in {int(b.rsplit('-', 1)[1]) for b in bad}))
            continue
        if k in ('sub', 'rd'):  # the text of ranges, the rendering of diagnostics
            have = {(b, e): '-' if t is None else t for b, e, t in obs[k]}
            bad = [(b, e, esc(t), have.get((b, e))) for b, e, t in v if have.get((b, e)) != (t if t == '-' else esc(t))]
            if bad:
                return (k, bad[0][:3], bad[0][3])
            continue
        if k == 'bt':  # the input as the result holds it
            a, e = obs.get('b'), tobytes(txt(v)).hex()
        elif k == 'dn':  # the decoder was called with exactly these names and the raw bytes
            a, e = obs.get('dl'), [n + ':' + tobytes(case['s']).hex() for n in v]
        else:
            a, e = project(k, obs), expected(k, v)
        if a != e:
            return (k, e, a)
    return None
