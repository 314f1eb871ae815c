"""Runs one property: sharded generation, shrinking, replay files, evidence, known findings.

    run.py PROPERTY [--replay FILE] [--seed N] [--n N]

A check module defines
    PROPERTY, RULE, LEVEL (default exploration), QUICK, THOROUGH (cases in all shards)
    gen(ch) -> case            JSON-able and self-contained: replay needs no generator
    check(case) -> info        raises Violation; info: {"nontrivial": bool, "tags": [..]}
optional
    fixed() -> [case]          always run, before the generated ones (shard 0)
    show(case) -> sample       what evidence shows of a case
    TIME = (quick, thorough)   wall-clock safety limits in seconds
"""
import collections
import hashlib
import importlib
import json
import os
import resource
import select
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPU_LIMIT = 30      # seconds of CPU one case may take
SHARDS = 8


class Hang(BaseException):
    pass


def on_timer(*_):
    raise Hang()


def load(prop):
    return importlib.import_module("checks." + prop.lower())


def guarded(mod, case, limit=CPU_LIMIT):
    """info or Violation"""
    from .tl import Skip, Violation
    signal.signal(signal.SIGVTALRM, on_timer)
    signal.setitimer(signal.ITIMER_VIRTUAL, limit)
    try:
        return mod.check(case)
    except (Violation, Skip):
        raise
    except Hang:
        raise Violation("hang", f"no result within {limit} s of CPU time") from None
    except RecursionError as e:
        raise Violation("check", f"RecursionError {e}") from None
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        raise Violation("check", f"{type(e).__name__}: {e} ({os.path.basename(tb.filename)}:{tb.lineno})") from None
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def attempt(mod, choices):
    """(case, choices actually used, Violation | info | None)"""
    from .choose import Chooser
    from .tl import Skip, Violation
    ch = Chooser(choices=choices)
    try:
        case = mod.gen(ch)
    except Exception:
        return None, None, None
    try:
        return case, ch.out, guarded(mod, case)
    except Skip:
        return case, ch.out, None
    except Violation as v:
        return case, ch.out, v


def shrink_case(mod, choices, case, viol, seconds):
    from .choose import shrink
    from .tl import Violation
    if viol.kind == "hang":
        return case, viol
    end = time.time() + seconds

    def still(c):
        _, out, r = attempt(mod, c)
        return out if isinstance(r, Violation) and r.kind == viol.kind else None

    final = shrink(list(choices), still, lambda: time.time() < end)
    k, _, r = attempt(mod, final)
    if isinstance(r, Violation):
        return k, r
    return case, viol


def shard(mod, seed, idx, n, deadline, wfd, shrink_s):
    from .choose import Chooser, Exhausted
    from .tl import Skip, Violation
    out = os.fdopen(wfd, "w")

    def send(**kw):
        out.write(json.dumps(kw) + "\n")
        out.flush()

    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    st = collections.Counter()
    tags = collections.Counter()
    keys, samples = set(), []
    skipreasons = collections.Counter()
    stopped = False

    def one(case, choices):
        st["evaluations"] += 1
        try:
            info = guarded(mod, case)
        except Skip as e:
            st["skipped"] += 1
            skipreasons[str(e)[:60]] += 1
            return True
        except Violation as v:
            if v.kind == "hang":
                try:
                    guarded(mod, case, 3 * CPU_LIMIT)
                    st["slow"] += 1
                    return True
                except Skip:
                    return True
                except Violation as v2:
                    v = v2
            send(type="violation", raw=case, kind=v.kind, msg=v.msg, phase="found")
            if choices is not None:
                case, v = shrink_case(mod, choices, case, v, shrink_s)
            send(type="violation", case=case, kind=v.kind, msg=v.msg, phase="shrunk", shard=idx, seed=seed)
            return False
        info = info or {}
        for t in info.get("tags", ()):
            tags[t] += 1
        if info.get("nontrivial", True):
            key = hashlib.sha1(json.dumps(info.get("key", case), sort_keys=True, default=str).encode()).hexdigest()[:16]
            if key not in keys:
                keys.add(key)
                if len(samples) < 2 and st["evaluations"] > 3:
                    samples.append(mod.show(case) if hasattr(mod, "show") else case)
        for c, k in info.get("counts", {}).items():
            st["n_" + c] += k
        return True

    ok = True
    if idx == 0 and hasattr(mod, "fixed"):
        for case in mod.fixed():
            st["fixed"] += 1
            if not one(case, None):
                ok = False
                break
    i = 0
    while ok and i < n:
        if time.time() > deadline:
            stopped = True
            break
        ch = Chooser(seed=(seed * 1000 + idx) * 1000003 + i)
        i += 1
        try:
            case = mod.gen(ch)
        except Exhausted:
            st["exhausted"] += 1
            continue
        except Skip as e:
            st["evaluations"] += 1
            st["skipped"] += 1
            skipreasons["gen " + str(e)[:60]] += 1
            continue
        ok = one(case, ch.out)
    send(type="done", st=st, tags=tags, keys=sorted(keys), samples=samples, stopped=stopped, skips=dict(skipreasons.most_common(8)))
    out.close()


def trim(x, n=3000):
    s = json.dumps(x)
    if len(s) <= n:
        return x
    if isinstance(x, dict):
        return {k: trim(v, n // 2) for k, v in x.items()}
    return s[:n] + "..."


def known():
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return {"open": [], "fixed": []}
    with open(p) as f:
        return json.load(f)


def run_known(mod, prop):
    from .tl import Skip, Violation
    for k in known()["open"]:
        if k["property"] != prop:
            continue
        try:
            guarded(mod, k["case"])
        except Violation:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
        except Skip:
            pass


def replay_path(prop):
    d = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, prop + ".json")


def replay(mod, prop, path):
    from .tl import Skip, Violation
    with open(path) as f:
        rec = json.load(f)
    try:
        guarded(mod, rec["case"])
    except Skip as e:
        print("case decides nothing:", e)
        return 0
    except Violation as v:
        print(v)
        if isinstance(rec["case"], dict) and "src" in rec["case"]:
            print(rec["case"]["src"])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print("property holds on this case")
    return 0


def main(argv):
    prop = argv[0]
    mod = load(prop)
    opts = dict(zip(argv[1::2], argv[2::2]))
    if "--replay" in opts:
        return replay(mod, prop, opts["--replay"])
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(opts.get("--seed", os.environ.get("VERIF_SEED", "1")) or 1)
    total = int(opts.get("--n", mod.QUICK if tier == "quick" else mod.THOROUGH))
    limit = getattr(mod, "TIME", (150, 2400))[tier == "thorough"]
    t0 = time.time()
    run_known(mod, prop)
    sys.stdout.flush()
    kids, bufs, done, viols = {}, {}, {}, {}
    for idx in range(SHARDS):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                os.close(r)
                shard(mod, seed, idx, (total + SHARDS - 1 - idx) // SHARDS, t0 + limit, w, float(os.environ.get("VERIF_SHRINK", 30)))
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        os.close(w)
        kids[r] = (pid, idx)
        bufs[r] = b""
    grace = None
    statuses = {}
    while kids:
        timeout = 1.0
        ready, _, _ = select.select(list(kids), [], [], timeout)
        for r in ready:
            d = os.read(r, 1 << 16)
            if d:
                bufs[r] += d
                while b"\n" in bufs[r]:
                    line, bufs[r] = bufs[r].split(b"\n", 1)
                    m = json.loads(line)
                    if m["type"] == "done":
                        done[kids[r][1]] = m
                    else:
                        viols.setdefault(kids[r][1], {})[m["phase"]] = m
                        if m["phase"] == "shrunk" and grace is None:
                            grace = time.time() + 1
            else:
                pid, idx = kids.pop(r)
                os.close(r)
                statuses[idx] = os.waitpid(pid, 0)[1]
        over = time.time() > t0 + limit + 150
        if kids and (over or grace and time.time() > grace):
            for r, (pid, idx) in list(kids.items()):
                os.kill(pid, signal.SIGKILL)
            for r, (pid, idx) in list(kids.items()):
                os.waitpid(pid, 0)
                os.close(r)
                statuses[idx] = 0
            kids = {}
    st, tags, skips = collections.Counter(), collections.Counter(), collections.Counter()
    keys, samples, stopped = set(), [], False
    for m in done.values():
        st.update(m["st"])
        tags.update(m["tags"])
        skips.update(m["skips"])
        keys |= set(m["keys"])
        samples += m["samples"]
        stopped |= m["stopped"]
    level = getattr(mod, "LEVEL", "exploration")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level,
          "coverage": {"evaluations": st["evaluations"], "distinct_nontrivial": len(keys), "rule": mod.RULE,
                       "samples": [trim(s) for s in samples[:4]], "features": dict(tags.most_common(80)),
                       "undecided": st["skipped"], "undecided_reasons": dict(skips), "stopped_early": stopped,
                       "counts": {k[2:]: v for k, v in st.items() if k.startswith("n_")}},
          "assumptions": getattr(mod, "ASSUMES", ["vlib/avm.py models the AVM and vlib/ref.py the language"]),
          "wall_s": round(time.time() - t0, 2), "violations": len(viols)}
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, prop + ".json"))
    if viols:
        best = None
        for idx, v in sorted(viols.items()):
            m = v.get("shrunk") or v["found"]
            case = m.get("case", m.get("raw"))
            if best is None or len(json.dumps(case)) < len(json.dumps(best[0])):
                best = (case, m)
        case, m = best
        path = replay_path(prop)
        with open(path, "w") as f:
            json.dump({"property": prop, "kind": m["kind"], "msg": m["msg"], "seed": seed, "case": case}, f, indent=1)
        print(f"{m['kind']}: {m['msg'][:2000]}")
        if isinstance(case, dict) and isinstance(case.get("src"), str):
            print(case["src"][:3000])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    bad = [i for i in range(SHARDS) if i not in done or statuses.get(i)]
    if bad:
        print(f"check error: shards {bad} gave no result", file=sys.stderr)
        return 2
    print(f"{prop}: {st['evaluations']} cases, {len(keys)} distinct non-trivial, {st['skipped']} undecided, "
          f"{ev['wall_s']} s{' (stopped early)' if stopped else ''}")
    return 0
