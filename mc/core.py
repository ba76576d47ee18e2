"""Explorer: exhaustive enumeration of bounded spaces, in parallel, with
violation capture, known findings, replay files and evidence.

A check declares *scopes*.  A scope is a finite, completely enumerated space,
cut into blocks; a block is enumerated by one worker process.  Each case is
decided by `Check.run_case`, which drives the implementation and compares it
with the reference model, raising Violation when they disagree.
"""
import collections
import hashlib
import itertools
import json
import multiprocessing
import os
import pickle
import resource
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, "out")
KNOWN = os.path.join(VERIF, "known-findings.txt")
CASE_SECONDS = 20
MEM_LIMIT = 6 << 30


class Violation(Exception):
    """May carry, as .result, what was explored apart from the violation."""
    result = None


class CaseTimeout(BaseException):
    pass


_CASE = [0, 0, 0]


def _alarm(signum, frame):
    """The limit is on processor time, or three times as much has passed:
    on a busy machine a case only takes longer."""
    limit, cpu, wall = _CASE
    if time.process_time() - cpu < 0.75 * limit and time.monotonic() - wall < 3 * limit:
        return
    raise CaseTimeout()


def h64(obj):
    """Stable 64-bit hash of a case or outcome."""
    if not isinstance(obj, (bytes, str)):
        obj = repr(obj)
    if isinstance(obj, str):
        obj = obj.encode("utf-8", "surrogatepass")
    return int.from_bytes(hashlib.blake2b(obj, digest_size=8).digest(), "big")


def scratch(prefix):
    """A fresh directory, in memory where possible."""
    shm = "/dev/shm"
    return tempfile.mkdtemp(prefix=prefix, dir=shm if os.access(shm, os.W_OK | os.X_OK) else None)


class Scope:
    """One bounded space.

    blocks : list of picklable parameters
    gen    : function(block) -> iterator of cases (all JSON-able)
    bound  : text describing exactly what is enumerated
    """

    def __init__(self, name, bound, blocks, gen, dedupe=True):
        self.name, self.bound, self.blocks, self.gen = name, bound, list(blocks), gen
        self.dedupe = dedupe


class Check:
    id = None
    level = "model_checking"
    # key -> predicate(case, message) for findings that may be listed in
    # known-findings.txt
    findings = {}
    assumptions = []

    def scopes(self, tier):
        raise NotImplementedError

    def run_case(self, scope, case):
        """Returns an outcome (any repr-able value); raises Violation.
        May return (outcome, n) wrapped in Result to report impl runs."""
        raise NotImplementedError

    def extra(self):
        return {}

    def show(self, case):
        return case


class Result:
    __slots__ = ("outcome", "traces", "states", "transitions")

    def __init__(self, outcome, traces=1, states=None, transitions=None):
        self.outcome, self.traces = outcome, traces
        self.states, self.transitions = states, transitions


_CHECK = None
_SCOPES = None
_KNOWN = frozenset()
_STOP_AFTER = 5


def load_known(prop):
    keys = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            line = line.strip()
            if not line.startswith("finding:"):
                continue
            fields = line[len("finding:"):].strip().split(" ", 2)
            if fields[0] != "property=" + prop:
                continue
            assert fields[1].startswith("key="), line
            keys[fields[1][4:]] = fields[2] if len(fields) > 2 else ""
    return keys


def _init_worker():
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    warnings.simplefilter("ignore")


def one_case(check, scope, case):
    """Runs one case; returns (outcome, message)."""
    limit = getattr(check, "case_seconds", CASE_SECONDS)
    _CASE[:] = limit, time.process_time(), time.monotonic()
    signal.setitimer(signal.ITIMER_REAL, limit, limit / 4)
    try:
        return check.run_case(scope, case), None
    except Violation as v:
        return v.result, str(v) or "violation"
    except CaseTimeout:
        return None, "no result within %d s (endless loop or blow-up)" % getattr(check, "case_seconds", CASE_SECONDS)
    except HarnessError:
        raise
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        tb = traceback.format_exc(limit=-6)
        return None, "unexpected %s: %s\n%s" % (type(e).__name__, str(e)[:300], tb)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


class HarnessError(Exception):
    pass


def _run_block(task):
    si, block = task
    check, scope = _CHECK, _SCOPES[si]
    t0 = time.time()
    seen = set()
    outcomes = set()
    cases = dup = traces = 0
    xstates = xtrans = 0
    own = False
    viol, known, samples = [], {}, []
    for case in scope.gen(block):
        cases += 1
        if scope.dedupe:
            h = h64(case)
            if h in seen:
                dup += 1
                continue
            seen.add(h)
        res, msg = one_case(check, scope.name, case)
        if msg is None:
            if isinstance(res, Result):
                traces += res.traces
                if res.states is not None:
                    own = True
                    xstates += res.states
                    xtrans += res.transitions
                res = res.outcome
            else:
                traces += 1
            if len(outcomes) < 200000:
                outcomes.add(h64(res))
            if len(samples) < 1:
                samples.append(check.show(case))
        else:
            if isinstance(res, Result):
                traces += res.traces
                xstates += res.states or 0
                xtrans += res.transitions or 0
            else:
                traces += 1
            key = None
            for k, pred in check.findings.items():
                if k in _KNOWN and pred(case, msg):
                    key = k
                    break
            if key is not None:
                known.setdefault(key, (case, msg))
            else:
                viol.append((case, msg))
                if len(viol) >= _STOP_AFTER:
                    break
    return dict(si=si, cases=cases, dup=dup, traces=traces,
                seen=(array_of(seen) if scope.dedupe else None),
                n=cases - dup,
                xstates=xstates, xtrans=xtrans, own=own,
                outcomes=array_of(outcomes), viol=viol, known=known,
                samples=samples, t=time.time() - t0)


def array_of(s):
    import array
    return array.array("Q", s).tobytes()


def from_array(b):
    import array
    a = array.array("Q")
    a.frombytes(b)
    return a


def run(check, tier, seed):
    """Explore all scopes; write evidence; return exit status."""
    global _CHECK, _SCOPES, _KNOWN
    t0 = time.time()
    warnings.simplefilter("ignore")
    known_keys = load_known(check.id)
    _KNOWN = frozenset(known_keys)
    _CHECK = check
    _SCOPES = check.scopes(tier)
    only = os.environ.get("VERIF_SCOPE")
    tasks = [(si, b) for si, s in enumerate(_SCOPES) for b in s.blocks
             if not only or any(o in s.name for o in only.split(","))]
    nproc = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))
    stats = [dict(cases=0, dup=0, traces=0, n=0, xs=0, xt=0, own=False, t=0.0, blocks=0)
             for _ in _SCOPES]
    seen = [set() for _ in _SCOPES]
    outcomes = [set() for _ in _SCOPES]
    viol, known, samples = [], {}, []
    ctx = multiprocessing.get_context("fork")
    sys.stdout.flush()
    pool = ctx.Pool(min(nproc, max(1, len(tasks))), _init_worker)
    try:
        for r in pool.imap_unordered(_run_block, tasks, 1):
            st = stats[r["si"]]
            for k in ("cases", "dup", "traces", "t", "n"):
                st[k] += r[k]
            st["xs"] += r["xstates"]
            st["xt"] += r["xtrans"]
            st["own"] |= r["own"]
            st["blocks"] += 1
            if r["seen"] is not None and len(seen[r["si"]]) < 6000000:
                seen[r["si"]].update(from_array(r["seen"]))
            outcomes[r["si"]].update(from_array(r["outcomes"]))
            for case, msg in r["viol"]:
                viol.append((_SCOPES[r["si"]].name, case, msg))
            for k, (case, msg) in r["known"].items():
                known.setdefault(k, (_SCOPES[r["si"]].name, case, msg))
            if len(samples) < 400:
                samples.extend((_SCOPES[r["si"]].name, s) for s in r["samples"])
            if len(viol) >= _STOP_AFTER:
                break
    finally:
        pool.terminate()
        pool.join()
    complete = not viol
    states = transitions = traces = 0
    scopes_ev = []
    for s, st, sn, oc in zip(_SCOPES, stats, seen, outcomes):
        if only and not any(o in s.name for o in only.split(",")):
            continue
        if st["own"]:
            n_states, n_trans = st["xs"], st["xt"]
        else:
            # distinct cases / enumeration edges (every generated case is one
            # edge of the enumeration tree, duplicates included)
            n_states = len(sn) if s.dedupe and len(sn) < 6000000 else st["n"]
            n_trans = st["cases"]
        states += n_states
        transitions += n_trans
        traces += st["traces"]
        scopes_ev.append(dict(name=s.name, bound=s.bound, states=n_states,
                              transitions=n_trans, traces_validated=st["traces"],
                              distinct_outcomes=len(oc), blocks=st["blocks"],
                              blocks_total=len(s.blocks),
                              cpu_s=round(st["t"], 2)))
    # a small spread of samples, from different scopes
    by = collections.OrderedDict()
    for name, s in samples:
        by.setdefault(name, []).append(s)
    picked = []
    for name, ss in by.items():
        ss = sorted(ss, key=lambda x: len(repr(x)))
        picked.append({"scope": name, "case": ss[len(ss) // 2]})
    cov = dict(states=states, transitions=transitions,
               traces_validated_against_impl=traces,
               samples=picked[:12],
               exhaustive=bool(complete),
               scopes=scopes_ev,
               rule="states: distinct cases of the completely enumerated scopes (or model states "
                    "where the scope is a state-space search); transitions: enumeration edges "
                    "generated, incl. those into a state already seen; traces: executions of the "
                    "implementation compared with the reference model")
    cov.update(check.extra())
    ev = dict(property=check.id, tier=tier, seed=seed, level=check.level,
              coverage=cov, assumptions=list(check.assumptions),
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    evidence = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(evidence, exist_ok=True)
    with open(os.path.join(evidence, check.id + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, ensure_ascii=True, default=repr)
        fh.write("\n")
    for k, text in known_keys.items():
        if k in known:
            print("KNOWN-FINDING: property=%s %s" % (check.id, text))
        elif not viol and not only:
            print("note: listed finding %s did not show up in this run" % k)
    for s in scopes_ev:
        print("  %-28s states=%-9d transitions=%-9d traces=%-9d outcomes=%-7d cpu=%.1fs  %s"
              % (s["name"], s["states"], s["transitions"], s["traces_validated"],
                 s["distinct_outcomes"], s["cpu_s"], s["bound"]))
    print("%s %s: states=%d transitions=%d traces=%d wall=%.1fs violations=%d"
          % (check.id, tier, states, transitions, traces, time.time() - t0, len(viol)))
    if viol:
        viol.sort(key=lambda v: len(repr(v[1])))
        os.makedirs(os.path.join(OUT, "replay"), exist_ok=True)
        for i, (scope, case, msg) in enumerate(viol[:_STOP_AFTER]):
            path = os.path.join(OUT, "replay", "%s-%d.json" % (check.id, i))
            with open(path, "w") as fh:
                json.dump(dict(property=check.id, scope=scope, case=case, message=msg,
                               how="python3 /verif/replay " + path),
                          fh, indent=1, default=repr)
            if i == 0:
                print("counterexample (%s): %r" % (scope, case))
                print(msg[:3000])
                print("VIOLATION property=%s replay=%s" % (check.id, path))
        return 1
    return 0


# -- combinators for enumerations -------------------------------------------

def strings(alphabet, maxlen, minlen=0):
    for n in range(minlen, maxlen + 1):
        for t in itertools.product(alphabet, repeat=n):
            yield "".join(t)


def chunks(seq, n):
    seq = list(seq)
    k = max(1, (len(seq) + n - 1) // n)
    return [seq[i:i + k] for i in range(0, len(seq), k)]
