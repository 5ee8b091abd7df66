"""Discharges contract obligations on /repo's C code with CBMC.

One Obligation is one function under contract.  goto-cc compiles a translation
unit of /verif/c, which includes /repo/lib/src/pbtools.c itself, goto-instrument
--dfcc turns the contract into assumptions and assertions (goto-instrument's
"enforce" mode), and cbmc discharges every assertion (postconditions, frame,
memory safety, arithmetic, unwinding) for all inputs the precondition allows.
"""
import collections
import concurrent.futures
import dataclasses
import json
import os
import re
import shutil
import signal
import subprocess
import tempfile
import threading
import time

REPO = os.environ.get('VP_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
JOBS = 8
MAXBUF = 2147483632
MAGIC = '0x50524f42'

CHECKS = ['--no-pointer-primitive-check', '--bounds-check',
          '--pointer-check', '--signed-overflow-check', '--div-by-zero-check',
          '--unwinding-assertions']


def sh(args, timeout=600, cwd=None, env=None, stdin=None, mem_gb=None):
    """Runs a command; returns (rc, stdout, stderr); rc None on timeout."""
    def limit():
        os.setsid()
        if mem_gb:
            import resource
            n = int(mem_gb * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (n, n))
    try:
        p = subprocess.Popen(args, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, cwd=cwd, env=env,
                             stdin=subprocess.PIPE if stdin is not None
                             else subprocess.DEVNULL,
                             preexec_fn=limit)
    except OSError as e:
        return 127, '', str(e)
    RUNNING.add(p)
    try:
        out, err = p.communicate(stdin, timeout=timeout)
        return p.returncode, out.decode(errors='replace'), err.decode(errors='replace')
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, err = p.communicate()
        return None, out.decode(errors='replace'), err.decode(errors='replace')
    finally:
        RUNNING.discard(p)


RUNNING = set()


def kill_all():
    """Ends the verifier processes this check started."""
    for p in list(RUNNING):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass


class Scratch:
    """A scratch directory outside /repo and /verif."""

    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix='vp-')
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


@dataclasses.dataclass
class Obligation:
    name: str
    tu: str                     # file in /verif/c (or an absolute path)
    harness: str
    fn: str                     # function whose contract is enforced
    replace: tuple = ()         # callees replaced by their contracts
    split: bool = False         # one cbmc process per property group
    unwind: int = 11
    defs: tuple = ()
    bounded: str = ''           # the stated bound, if this is no proof
    timeout: int = 240
    contract: bool = True       # False: plain assertions in the harness
    incs: tuple = ()
    probes: int = -1            # counted from the contract when -1
    flags: tuple = ()
    coarse: int = 0             # groups of postconditions (0: one each)
    only: tuple = ()            # groups that are looked at, when not all
    loops: tuple = ()           # functions whose loop has a contract
    small: bool = True          # has a MAXBUF bound, so can be made small
    fresh_src: str = ''         # directory searched before /repo's lib/src


class Prep:
    pass


PROPERTY_RE = re.compile(r'^(.*?)\.([a-z_-]+)\.(\d+)$')


def prepare(ob, d, small=None):
    """Compiles and instruments; returns Prep with .error or .groups."""
    p = Prep()
    p.ob = ob
    p.error = None
    tu = ob.tu if ob.tu.startswith('/') else f'{VERIF}/c/{ob.tu}'
    defs = list(ob.defs) + ['MAXBUF=%d' % (small or MAXBUF)]
    incs = list(ob.incs) + ([ob.fresh_src] if ob.fresh_src else []) + [
        f'{VERIF}/c', f'{REPO}/lib/include', f'{REPO}/lib/src']
    tag = ob.name.replace('/', '_') + (f'-{small}' if small else '')
    a, b = f'{d}/{tag}.a.gb', f'{d}/{tag}.b.gb'
    cpp = [f'-D{x}' for x in defs] + [f'-I{x}' for x in incs]
    rc, out, err = sh(['goto-cc'] + cpp + [tu, '-o', a, '--function', ob.harness])
    if rc != 0:
        p.error = 'goto-cc: ' + (err + out)[-2000:]
        return p
    if ob.loops:
        # loops without a contract are unwound first (dfcc wants it so)
        rc, out, err = sh(['goto-instrument', '--show-loops', a])
        ids = [m.group(1) for m in re.finditer(r'Loop (([A-Za-z_0-9]+)\.\d+):', out)
               if m.group(2) not in ob.loops]
        u = f'{d}/{tag}.u.gb'
        rc, out, err = sh(['goto-instrument', '--unwinding-assertions', '--unwindset',
                           ','.join(f'{i}:{ob.unwind}' for i in ids), a, u])
        if rc != 0:
            p.error = 'goto-instrument --unwindset: ' + (out + err)[-2000:]
            return p
        a = u
    if ob.contract:
        args = ['goto-instrument', '--dfcc', ob.harness,
                '--enforce-contract', f'{ob.fn}/{ob.fn}_contract']
        for g in ob.replace:
            args += ['--replace-call-with-contract', f'{g}/{g}_contract']
        if ob.loops:
            args += ['--apply-loop-contracts']
        rc, out, err = sh(args + [a, b])
        if rc != 0:
            p.error = 'goto-instrument: ' + (out + err)[-2000:]
            return p
    else:
        b = a
    p.probes = ob.probes
    if p.probes < 0:
        p.probes = count_probes(ob, tu, cpp)
    # with loop contracts what remains are loops over the write set
    p.base = ['cbmc', b, '--json-ui', '--unwind', str(20 if ob.loops else ob.unwind)] + CHECKS \
        + list(ob.flags)
    rc, out, err = sh(p.base + ['--show-properties'])
    props = None
    try:
        for x in json.loads(out):
            if 'properties' in x:
                props = x['properties']
    except ValueError:
        pass
    if not props:
        p.error = 'cbmc --show-properties: ' + (out + err)[-2000:]
        return p
    p.missing = set()
    names = [x['name'] for x in props]
    p.props = {x['name']: x for x in props}
    post = [n for n in names if '.postcondition.' in n]
    post.sort(key=lambda n: int(n.rsplit('.', 1)[1]))
    if not ob.contract:
        # a probe is an assertion whose text starts with PROBE
        p.probe_names = {x['name'] for x in props
                         if x.get('description', '').startswith('PROBE')}
    else:
        p.probe_names = set(post[len(post) - p.probes:]) if p.probes else set()
        if len(post) <= p.probes:
            p.error = 'no postconditions'
            return p
    groups = collections.OrderedDict()
    for n in names:
        if not ob.split:
            k = 'all'
        elif ob.coarse:
            k = 'probes' if n in p.probe_names else \
                f'postconditions {post.index(n) % ob.coarse}' if n in post else \
                'loop step' if '.loop_invariant_step' in n else 'safety'
        elif n in post or n in p.probe_names:
            k = n
        else:
            m = PROPERTY_RE.match(n)
            k = '.'.join(m.group(1, 2)) if m else n
            if '.assertion.' in n and not ob.contract:
                k = n
        groups.setdefault(k, []).append(n)
    if ob.only:
        groups = {k: v for k, v in groups.items() if k in ob.only}
    p.groups = groups
    return p


def count_probes(ob, tu, cpp):
    rc, out, err = sh(['gcc', '-E', '-P'] + cpp + [tu])
    m = re.search(r'\b%s_contract\s*\(' % re.escape(ob.fn), out)
    if not m:
        return 0
    end = out.find(';', m.start())
    # contracts contain no ';' except in conditional assigns targets
    i = m.start()
    depth = 0
    while i < len(out):
        c = out[i]
        if c == '(':
            depth += 1
        elif c == ')':
            depth -= 1
        elif c == ';' and depth == 0:
            break
        i += 1
    return out[m.start():i].count(MAGIC)


def run_cbmc(p, names, timeout, flags):
    """One cbmc process; returns ({property: status}, note)."""
    args = list(p.base) + flags
    if len(p.groups) > 1 or len(names) < len(p.props):
        for n in names:
            args += ['--property', n]
    rc, out, err = sh(args, timeout=timeout)
    if rc is None:
        return {n: 'TIMEOUT' for n in names}, 'timeout after %ds' % timeout
    res = {}
    note = ''
    try:
        data = json.loads(out)
    except ValueError:
        data = []
        note = 'cbmc: ' + (out + err)[-500:]
    for x in data:
        if 'result' in x:
            for r in x['result']:
                res[r['property']] = r['status']
        if 'messageText' in x and 'no body for function' in x['messageText']:
            m = re.search(r"no body for (?:function|callee) '?([A-Za-z_0-9]+)",
                          x['messageText'])
            p.missing.add(m.group(1) if m else x['messageText'])
        if x.get('messageType') == 'ERROR':
            note = x.get('messageText', '')[:500]
    return {n: res.get(n, 'UNKNOWN') for n in names}, note


class Prepared:
    """An obligation with its instrumented binaries for several bounds on the
    buffer size.  The full bound is what is proved; a smaller bound only
    strengthens the precondition, so it serves to find counterexamples and to
    show that a path is reachable (probes), never to prove."""

    def __init__(self, ob, d, small=None):
        self.ob, self.d = ob, d
        self.lock = threading.Lock()
        self.preps = {}
        self.full = prepare(ob, d, small)
        self.fixed = small

    def get(self, size):
        if not self.ob.small or self.fixed:
            return self.full
        with self.lock:
            if size not in self.preps:
                self.preps[size] = prepare(self.ob, self.d, size)
            q = self.preps[size]
        return self.full if q.error else q


SLICE = ['--slice-formula']
CADICAL = ['--sat-solver', 'cadical', '--slice-formula']
PROOF = [(None, SLICE, 50), (100, SLICE, 30), (None, CADICAL, 240),
         (None, [], 300)]
LOOPS = [(None, CADICAL, 420), (100, SLICE, 60), (None, SLICE, 300)]
COARSE = [(None, CADICAL, 300), (100, SLICE, 60), (None, SLICE, 300)]
PROBES = [(1000, SLICE, 30), (1000, CADICAL, 40), (None, SLICE, 60),
          (None, [], 120)]


def solve(pp, group, names, deadline):
    """Solves one group; returns ({property: status}, seconds, note)."""
    p = pp.full
    probe = all(n in p.probe_names for n in names)
    if not pp.ob.split and not pp.ob.small:
        plan = [(None, [], 240), (None, CADICAL, 240)]
    elif not pp.ob.split:
        plan = [(None, [], 120), (100, [], 60), (None, CADICAL, 240)]
    else:
        plan = PROBES if probe else LOOPS if pp.ob.loops else \
            COARSE if group.startswith('postconditions') else PROOF
    final = {n: 'UNKNOWN' for n in names}
    note = ''
    t0 = time.time()
    for size, flags, timeout in plan:
        timeout = min(timeout, deadline - time.time())
        if timeout < 1:
            note += ' out of time'
            break
        q = pp.get(size) if size else p
        open_ = [n for n in names if final[n] not in ('SUCCESS', 'FAILURE')]
        st, msg = run_cbmc(q, open_, timeout, flags)
        for n, s in st.items():
            if q is p or s == 'FAILURE':
                final[n] = s
            elif final[n] == 'UNKNOWN':
                final[n] = 'TIMEOUT'
        if all(s in ('SUCCESS', 'FAILURE') for s in final.values()):
            return final, time.time() - t0, ''
        note = msg
    return final, time.time() - t0, note


@dataclasses.dataclass
class Outcome:
    ob: Obligation
    status: str = 'undecided'   # discharged | refuted | undecided
    props: dict = dataclasses.field(default_factory=dict)
    refuted: list = dataclasses.field(default_factory=list)
    vacuous: list = dataclasses.field(default_factory=list)
    open: list = dataclasses.field(default_factory=list)
    seconds: float = 0
    note: str = ''
    descriptions: dict = dataclasses.field(default_factory=dict)
    nobl: int = 0
    nprobes: int = 0


# functions of the C library CBMC may leave without body, with no effect on
# what is proved
IGNORED_MISSING = set()


def classify(p, o):
    for n, s in o.props.items():
        if n in p.probe_names:
            o.nprobes += 1
            if s == 'SUCCESS':
                o.vacuous.append(n)
            elif s != 'FAILURE':
                o.open.append(n)
            continue
        o.nobl += 1
        if s == 'SUCCESS':
            continue
        if s == 'FAILURE' and '.unwind.' not in n and '.recursion' not in n:
            o.refuted.append(n)
        else:
            o.open.append(n)
        o.descriptions[n] = p.props.get(n, {}).get('description', '')
    missing = p.missing - IGNORED_MISSING
    if missing:
        o.note += ' functions without a body: ' + ', '.join(sorted(missing))
        if o.refuted:
            # a refutation through an unknown function decides nothing
            o.open += o.refuted
            o.refuted = []
        o.status = 'undecided'
    elif o.refuted:
        o.status = 'refuted'
    elif o.open or o.vacuous:
        o.status = 'undecided'
    else:
        o.status = 'discharged'
    return o


def discharge(obs, d, deadline=None, small=None, stop=None):
    """Discharges all obligations in parallel; returns a list of Outcomes."""
    deadline = deadline or time.time() + 800
    outcomes = {ob.name: Outcome(ob) for ob in obs}
    lock = threading.Lock()
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        preps = list(ex.map(lambda ob: Prepared(ob, d, small), obs))
        tasks = []
        for pp in preps:
            o = outcomes[pp.ob.name]
            if pp.full.error:
                o.note = pp.full.error
                continue
            for g, names in pp.full.groups.items():
                tasks.append((pp, g, names))

        stopped = threading.Event()

        def work(t):
            pp, g, names = t
            o = outcomes[pp.ob.name]
            if stopped.is_set():
                st, dt, note = {n: 'UNKNOWN' for n in names}, 0, 'stopped'
            else:
                st, dt, note = solve(pp, g, names, deadline)
            if stop and any(s == 'FAILURE' and n not in pp.full.probe_names
                            for n, s in st.items()):
                stopped.set()
                kill_all()
            with lock:
                o.props.update(st)
                o.seconds += dt
                if note and note not in o.note:
                    o.note += ' ' + note
        # long groups first: loop steps and postconditions
        tasks.sort(key=lambda t: (t[1] != 'loop step', 'postcondition' not in t[1]))
        list(ex.map(work, tasks))
    for pp in preps:
        if not pp.full.error:
            classify(pp.full, outcomes[pp.ob.name])
    return [outcomes[ob.name] for ob in obs]


def counterexample(ob, prop, d, small=64, timeout=120):
    """Ghost and input values of a counterexample to one property, small if
    possible: {name: value}."""
    for size in ([small, None] if ob.small else [None]):
        p = prepare(ob, d, size)
        if p.error:
            continue
        args = list(p.base) + ['--trace', '--property', prop]
        rc, out, err = sh(args, timeout=timeout)
        if rc is None:
            continue
        values = collections.OrderedDict()
        try:
            data = json.loads(out)
        except ValueError:
            continue
        for x in data:
            for r in x.get('result', []):
                if r.get('property') != prop or r.get('status') != 'FAILURE':
                    continue
                for step in r.get('trace', []):
                    if step.get('stepType') != 'assignment':
                        continue
                    lhs = step.get('lhs', '')
                    v = step.get('value', {})
                    if re.fullmatch(r'g_[a-z0-9_]+', lhs) and 'data' in v:
                        values[lhs] = v['data']
                    elif step.get('sourceLocation', {}).get('function', '') \
                            .startswith('h_') and 'data' in v \
                            and re.fullmatch(r'[a-z_0-9]+', lhs):
                        values.setdefault('in_' + lhs, v['data'])
                return size, values
    return None, {}
