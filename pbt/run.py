"""Entry point: python -m pbt.run ID [--tier T] [--replay FILE]."""

import argparse
import importlib
import json
import multiprocessing
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


REPO = os.environ.get("VERIF_REPO", "/repo")  # for development only; ./check clears it
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def bootstrap():
    """Imports third party modules, then diamondback from /repo's working tree (never from stale byte code)."""
    sys.path.append(TOOLS)
    import warnings

    warnings.simplefilter("ignore")
    import hypothesis  # noqa: F401
    import numpy  # noqa: F401
    import scipy.signal  # noqa: F401
    import sklearn.mixture  # noqa: F401

    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent-pycache"
    sys.path.insert(0, REPO)
    import diamondback

    if not os.path.realpath(diamondback.__file__).startswith(REPO + "/"):
        raise RuntimeError(f"diamondback is imported from {diamondback.__file__}")


def known_findings(prop):
    """Entries 'known: property=ID {JSON}' of known-findings.txt; entries 'fixed:' suppress nothing."""
    out = []
    with open(os.path.join(VERIF, "known-findings.txt"), encoding="utf-8") as fin:
        for line in fin:
            head = f"known: property={prop} "
            if line.startswith(head):
                out.append(json.loads(line[len(head) :]))
    return out


def rules(facets):
    """The rule of every facet; facets which share a rule are listed together."""
    by = {}
    for f in facets:
        by.setdefault(f.rule, []).append(f.name)
    return " ".join(f"[{', '.join(v)}] {k}" for k, v in by.items())


def main():
    p = argparse.ArgumentParser()
    p.add_argument("id", nargs="?", default="")
    p.add_argument("--selftest", action="store_true", help="only verifies that the generator library and numpy are installed")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--replay")
    p.add_argument("--facet")
    p.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    a = p.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    if a.selftest:
        sys.path.append(TOOLS)
        import hypothesis
        import numpy

        print(f"ready: hypothesis {hypothesis.__version__}, numpy {numpy.__version__}")
        return 0
    if not a.id:
        p.error("a property is required")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        from pbt.core import seed_of

        seed = seed_of(os.environ["VERIF_SEED"]) % (1 << 31)
    try:
        bootstrap()
    except Exception as ex:
        # The package cannot be imported at all: every property which needs it is unobservable.
        print(f"ERROR cannot import diamondback from {REPO}: {type(ex).__name__}: {ex}")
        return 2
    from pbt import core

    importlib.import_module(f"pbt.props.{a.id.lower()}")
    facets = core.REGISTRY[a.id]
    if getattr(sys.modules[f"pbt.props.{a.id.lower()}"], "POLYPHASE", False):
        try:  # the filter bank is synthesized once, before processes are forked
            from diamondback import PolyphaseRateFilter

            PolyphaseRateFilter(1.0)
        except Exception:
            pass  # reported by the facets which use it
    byname = {f.name: f for f in facets}

    if a.replay:
        with open(a.replay) as fin:
            e = json.load(fin)
        try:
            core.evaluate(byname[e["facet"]], e["case"])
        except (core.Violation, core.Hang) as ex:
            print(f"{e['facet']}: {ex}")
            print(f"VIOLATION property={a.id} replay={a.replay}")
            return 1
        print(f"{a.id} {e['facet']}: replayed case holds")
        return 0

    if a.facet:
        facets = [f for f in facets if f.name == a.facet]
    tasks = []
    for f in facets:
        shards = f.shards * (2 if f.shards > 1 else 1) * (2 if tier == "thorough" and f.shards > 1 else 1)
        for shard in range(shards):
            tasks.append((f, tier, seed, shard, shards))
    tasks.sort(key=lambda t: -t[0].n / t[4])
    limit = 840 if tier == "quick" else 6 * 3600
    results = []
    ctx = multiprocessing.get_context("fork")
    global _TASKS
    _TASKS = tasks
    if a.jobs <= 1:
        results = [_run(ii) for ii in range(len(tasks))]
    else:
        pool = ctx.Pool(min(a.jobs, len(tasks)), maxtasksperchild=None)
        try:
            pending = [pool.apply_async(_run, (ii,)) for ii in range(len(tasks))]
            for r in pending:
                results.append(r.get(max(1.0, limit - (time.time() - t0))))
        except multiprocessing.TimeoutError:
            pool.terminate()
            print(f"ERROR property={a.id} time limit reached; inconclusive")
            return 2
        finally:
            pool.terminate()
            pool.join()

    errors = [r for r in results if r["error"]]
    failures = [r for r in results if r["failure"]]
    cover, hashes, samples = {}, set(), []
    for r in results:
        c = cover.setdefault(r["facet"], dict(evaluations=0, labels={}, distinct=set(), samples=[]))
        c["evaluations"] += r["evaluations"]
        for k, v in r["labels"].items():
            c["labels"][k] = c["labels"].get(k, 0) + v
        c["distinct"] |= r["hashes"]
        c["samples"] += r["samples"]
    for name, c in cover.items():
        small = sorted(c["samples"], key=lambda s: len(core.canonical(s)))
        for s in small[len(small) // 2 : len(small) // 2 + 2]:
            t = core.canonical(s)
            samples.append(dict(facet=name, case=s if len(t) < 1500 else t[:1500] + "..."))

    findings = known_findings(a.id)
    shown = 0
    for e in findings:
        try:
            core.evaluate(byname[e["facet"]], e["case"])
        except (core.Violation, core.Hang) as ex:
            print(f"KNOWN-FINDING: property={a.id} {e['what']}")
            shown += 1

    evidence = dict(
        property=a.id,
        tier=tier,
        seed=seed,
        level="exploration",
        coverage=dict(
            evaluations=sum(c["evaluations"] for c in cover.values()),
            distinct_nontrivial=sum(len(c["distinct"]) for c in cover.values()),
            rule="Cases are generated per facet by Hypothesis strategies (or enumerated), and counted as distinct by their "
            "canonical JSON. " + rules(facets),
            samples=samples,
            facets={
                n: dict(evaluations=c["evaluations"], distinct_nontrivial=len(c["distinct"]), classes=c["labels"])
                for n, c in cover.items()
            },
            known_findings_observed=shown,
        ),
        assumptions=getattr(sys.modules[f"pbt.props.{a.id.lower()}"], "ASSUMPTIONS", []),
        wall_s=round(time.time() - t0, 3),
        violations=len(failures),
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{a.id}.json"), "w") as fout:
        json.dump(evidence, fout, indent=1)
        fout.write("\n")

    if failures:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        seen = set()
        for r in sorted(failures, key=lambda r: len(core.canonical(r["failure"]["case"]))):
            if r["facet"] in seen:
                continue
            seen.add(r["facet"])
            path = os.path.join("replays", f"{a.id}-{r['facet']}.json")
            with open(os.path.join(VERIF, path), "w") as fout:
                json.dump(dict(property=a.id, facet=r["facet"], case=r["failure"]["case"], message=r["failure"]["msg"]), fout, indent=1)
            print(f"{a.id} {r['facet']}: {r['failure']['msg']}")
            print(f"  case: {core.canonical(r['failure']['case'])[:600]}")
            print(f"VIOLATION property={a.id} replay={path}")
        return 1
    if errors:
        for r in errors:
            print(f"ERROR facet={r['facet']}\n{r['error']}")
        return 2
    print(
        f"{a.id} held: {evidence['coverage']['evaluations']} evaluations, "
        f"{evidence['coverage']['distinct_nontrivial']} distinct non-trivial, {evidence['wall_s']} s"
    )
    return 0


def _run(ii):
    from pbt import core

    return core.run_task(_TASKS[ii])


if __name__ == "__main__":
    sys.exit(main())
