"""Runs one property's check: discharges its contract obligations, runs the
labelled bounded programs, decides the verdict, writes evidence and replay."""
import concurrent.futures
import dataclasses
import json
import os
import re
import sys
import time
import traceback

from . import engine

EVIDENCE = f'{engine.VERIF}/evidence'


@dataclasses.dataclass
class ProgResult:
    """A bounded program's result."""
    name: str
    ok: bool = True
    cases: int = 0
    distinct: int = 0
    what: str = ''              # what was enumerated and within which bound
    failure: str = ''           # the failing input, when not ok
    command: str = ''
    samples: list = dataclasses.field(default_factory=list)
    seconds: float = 0
    error: str = ''             # the program could not run: decides nothing
    proved: int = 0             # solver obligations generated by the program
    obligations: int = 0
    functions: list = dataclasses.field(default_factory=list)
    key: str = ''               # identifies a failure, for known findings
    bounded: str = ''           # label of the bound
    downgraded: list = dataclasses.field(default_factory=list)


@dataclasses.dataclass
class Property:
    id: str
    technique: str
    level: str
    note: str
    obligations: object = None  # callable(ctx) -> [Obligation]
    programs: tuple = ()        # callables(ctx) -> ProgResult or list of them
    trusted: tuple = ()
    assumptions: tuple = ()
    contracts: tuple = ()       # callables(ctx) -> [engine.Outcome]
    budget: int = 780


class Context:
    def __init__(self, prop, scratch, tier, seed, deadline):
        self.prop = prop
        self.scratch = scratch
        self.tier = tier
        self.seed = seed
        self.deadline = deadline
        self.thorough = tier == 'thorough'
        self.notes = []         # obligations that could not be stated


def known_findings():
    path = f'{engine.VERIF}/known_findings.txt'
    res = []
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
            if m:
                res.append(m.groups())
    return res


def run_program(f, ctx):
    t = time.time()
    try:
        r = f(ctx)
    except Exception:
        r = ProgResult(getattr(f, '__name__', 'program'),
                       error=traceback.format_exc()[-2000:])
    rs = r if isinstance(r, list) else [r]
    for x in rs:
        if not x.seconds:
            x.seconds = round(time.time() - t, 1)
    return rs


def fallback(ob, d, deadline):
    """Bounded stand-in for an obligation the verifier did not decide."""
    import copy
    o2 = copy.copy(ob)
    o2.unwind = max(ob.unwind, 44)
    o2.name = ob.name + '-bounded'
    if not ob.small:
        return None
    res = engine.discharge([o2], d, min(deadline, time.time() + 150), small=24)[0]
    return res


def check(prop, tier, seed):
    t0 = time.time()
    with engine.Scratch() as d:
        ctx = Context(prop, d, tier, seed,
                      t0 + (prop.budget if tier != 'thorough' else 3000))
        obs = []
        note = ''
        if prop.obligations:
            try:
                obs = prop.obligations(ctx)
            except Exception:
                note = 'obligations could not be generated: ' \
                    + traceback.format_exc()[-1500:]
        note += '; '.join(ctx.notes)
        progs = []
        with concurrent.futures.ThreadPoolExecutor(max(1, min(4, len(prop.programs)))) as ex:
            for rs in ex.map(lambda f: run_program(f, ctx), prop.programs):
                progs += rs
        failed = [p for p in progs if not p.ok]
        deadline = ctx.deadline
        if failed:
            # a concrete failing input is at hand: the obligations only name
            # what broke
            deadline = min(deadline, time.time() + 150)
        outcomes = engine.discharge(obs, d, deadline,
                                    stop=(lambda o: True) if failed else None) \
            if obs else []
        for f in prop.contracts:
            try:
                outcomes += f(ctx)
            except Exception:
                note += ' contracts could not be generated: ' \
                    + traceback.format_exc()[-1500:]
        known = []
        for p in list(failed):
            for pid, key, text in known_findings():
                if pid == prop.id and key == p.key:
                    failed.remove(p)
                    known.append(text)
        refuted = [o for o in outcomes if o.status == 'refuted']
        undecided = [o for o in outcomes if o.status == 'undecided']
        standins = {}
        if not failed and not refuted:
            for o in undecided:
                if hasattr(o, 'traces') or o.ob.loops or ('goto-' in o.note and not o.props):
                    continue
                r = fallback(o.ob, d, ctx.deadline)
                if r is not None:
                    standins[o.ob.name] = r
                    if r.status == 'refuted':
                        refuted.append(r)
        violation = None
        if failed:
            violation = write_replay(prop, failed, refuted, None)
            tail = ''
        elif refuted:
            o = refuted[0]
            if hasattr(o, 'traces'):
                ce = ('none', o.traces.get(o.refuted[0], {}))
            else:
                ce = engine.counterexample(o.ob, o.refuted[0], d)
            violation = write_replay(prop, [], refuted, ce)
            tail = ' no-failing-input-found'
        for k in known:
            print(f'KNOWN-FINDING: property={prop.id} {k}')
        write_evidence(prop, tier, seed, outcomes, standins, progs,
                       time.time() - t0, bool(violation), note, known)
        if violation:
            print(f'VIOLATION property={prop.id} replay={violation}{tail}')
            return 1
        nd = sum(1 for o in outcomes if o.status == 'discharged')
        print(f'{prop.id}: {nd}/{len(outcomes)} contracts discharged, '
              f'{sum(o.nobl for o in outcomes) + sum(p.obligations for p in progs)} obligations, '
              f'{sum(p.cases for p in progs)} bounded cases, '
              f'{time.time() - t0:.0f} s'
              + (f'; undecided: {[o.ob.name for o in undecided]}' if undecided else '')
              + (f'; errors: {[p.name for p in progs if p.error]}' if any(p.error for p in progs) else ''))
        return 0


def write_replay(prop, failed, refuted, ce):
    os.makedirs(EVIDENCE, exist_ok=True)
    path = f'{EVIDENCE}/{prop.id}-replay.txt'
    with open(path, 'w') as f:
        f.write(f'property {prop.id}\n\n')
        for p in failed:
            f.write(f'Failing input, run against the real code by {p.name}\n'
                    f'command: {p.command}\n{p.failure}\n\n')
        for o in refuted:
            f.write(f'Failed obligation: contract of {o.ob.fn} '
                    f'({o.ob.tu}, harness {o.ob.harness})\n')
            for n in o.refuted[:20]:
                f.write(f'  {n}: {o.descriptions.get(n, "")}\n')
            f.write(f'  {o.note}\n')
            if hasattr(o, 'context'):
                f.write(o.context())
        if ce:
            f.write(f'\nVerifier counterexample (buffer bound {ce[0]}):\n')
            for k, v in ce[1].items():
                f.write(f'  {k} = {v}\n')
    return path


def write_evidence(prop, tier, seed, outcomes, standins, progs, wall, bad,
                   note, known):
    os.makedirs(EVIDENCE, exist_ok=True)
    nobl = sum(o.nobl for o in outcomes) + sum(p.obligations for p in progs)
    proved = [o for o in outcomes if o.status == 'discharged' and not o.ob.bounded]
    disch = sum(o.nobl - len(o.open) - len(o.refuted) for o in outcomes) \
        + sum(p.proved for p in progs)
    functions = [
        {'function': o.ob.fn, 'harness': o.ob.harness, 'file': o.ob.tu,
         'status': o.status, 'obligations': o.nobl,
         'reachability_probes': o.nprobes,
         'solver_seconds': round(o.seconds, 1),
         'bounded': o.ob.bounded or None, 'note': o.note.strip()[:300]}
        for o in outcomes]
    for p in progs:
        functions += p.functions
    bounded = [
        {'program': p.name, 'what': p.what, 'bound': p.bounded,
         'cases': p.cases, 'ok': p.ok, 'seconds': p.seconds,
         'error': p.error[:500]} for p in progs if p.cases or p.error]
    undecided = [o.ob.name for o in outcomes if o.status == 'undecided']
    for p in progs:
        undecided += p.downgraded
    cov = {
        'obligations': nobl,
        'discharged': disch,
        'checker_cmd': f'cd /verif && python3 -m vp {prop.id}',
        'trusted_base': list(prop.trusted) or ['-'],
        'contracts': len(outcomes),
        'contracts_discharged': len(proved),
        'functions': functions,
        'undecided': undecided,
        'bounded_standins': {
            k: {'status': v.status, 'bound': 'buffers up to 24 bytes, 44 loop iterations'}
            for k, v in standins.items()},
        'bounded_programs': bounded,
        'back_end': 'CBMC 6.11.0 (goto-instrument --dfcc; SAT: minisat2, cadical), z3 for VCs generated in Python',
        'solver_seconds': round(sum(o.seconds for o in outcomes), 1),
    }
    evals = sum(p.cases for p in progs)
    cov['evaluations'] = evals
    cov['distinct_nontrivial'] = sum(p.distinct or p.cases for p in progs)
    cov['rule'] = '; '.join(p.what for p in progs if p.what) or 'no bounded program'
    cov['samples'] = sum((p.samples for p in progs), [])[:5] or \
        [f['function'] for f in functions[:5]]
    cov['explanation'] = prop.note
    if prop.level == 'translation_validation':
        cov['programs'] = len(outcomes) or 1
        cov['disagreements_checked'] = nobl + evals
    ev = {
        'property': prop.id, 'tier': tier, 'seed': seed, 'level': prop.level,
        'coverage': cov,
        'assumptions': list(prop.assumptions) + ([note] if note else []),
        'wall_s': round(wall, 1), 'violations': int(bad),
    }
    if known:
        cov['known_findings'] = known
    tmp = f'{EVIDENCE}/.{prop.id}.tmp'
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, f'{EVIDENCE}/{prop.id}.json')


def main(argv):
    from . import props
    if len(argv) != 2:
        print('usage: python3 -m vp ID')
        return 2
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    return check(props.PROPS[argv[1]], tier, seed)
