"""Run one property's check.  See harness.py; usage in ../check."""
import argparse
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
real_time = time.monotonic

EXIT_OK, EXIT_VIOLATION, EXIT_ERROR = 0, 1, 2
WALL_BUDGET = {"quick": 420, "thorough": 700}
HARD_STOP = {"quick": 780, "thorough": 860}


def load_known():
    listed = {}
    with open(os.path.join(ROOT, "KNOWN_FINDINGS.txt"), encoding="utf8") as f:
        for line in f:
            if line.startswith("finding: "):
                fields = line.split(None, 3)
                listed[(fields[1].split("=", 1)[1], fields[2].split("=", 1)[1])] = fields[3].strip()
    return listed


# ---------------------------------------------------------------- one shard


def arm(limit, handler_state):
    signal.setitimer(signal.ITIMER_PROF, limit, 5)
    signal.setitimer(signal.ITIMER_REAL, limit * 4, 20)


def disarm():
    signal.setitimer(signal.ITIMER_PROF, 0)
    signal.setitimer(signal.ITIMER_REAL, 0)


def run_case(harness, test, case, ctx):
    """Call the test function on the case, under the watchdog."""
    ctx.begin()
    arm(test.cpu_limit, None)
    try:
        test.func(case, ctx)
    except BaseException as exc:
        if not isinstance(exc, Exception) and type(exc).__module__.startswith("mabel"):
            # some of mabel's errors are not Exceptions, hypothesis would not shrink them
            raise RuntimeError(f"mabel raised {type(exc).__name__}: {exc}") from exc
        raise
    finally:
        disarm()
        ctx.end()


def on_alarm(signum, frame):
    import harness

    raise harness.Hang(f"no result after the case's time limit (signal {signum})")


def shard_main(args):
    import zlib

    import harness
    from vhyp import hypothesis
    import hypothesis.internal.conjecture.engine as engine
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import seed as hseed

    index, count = map(int, args.shard.split("/"))
    tier, seed = args.tier, args.seed
    engine.MAX_SHRINKING_SECONDS = 90 if tier == "quick" else 180
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    signal.signal(signal.SIGPROF, on_alarm)
    signal.signal(signal.SIGALRM, on_alarm)

    os.chdir(args.scratch)
    sys.path.insert(0, ROOT)
    prop = harness.load(args.property)
    deadline = real_time() + WALL_BUDGET[tier]
    result = {"tests": {}, "failures": [], "known": [], "error": None, "labels": {}, "excluded": {}}
    hashes = set()
    samples = []

    def write():
        tmp = args.out + ".tmp"
        with open(tmp, "w") as f:
            json.dump(result, f)
        os.replace(tmp, args.out)
        with open(args.out + ".h", "wb") as f:
            f.write(b"".join(hashes))

    def fail(test, case, exc, origin):
        result["failures"].append(
            {
                "test": test.name,
                "message": harness.describe(exc),
                "case": harness.encode_case(case),
                "case_repr": harness.short(case, 20000),
                "origin": origin,
            }
        )

    known = load_known()
    # fixed inputs first (first shard only): regressions and recorded findings
    if index == 0 and not args.only:
        for key, name, case in prop.probes:
            test = prop.tests[name]
            try:
                run_case(harness, test, case, harness.Ctx())
            except (Exception, harness.Hang) as exc:
                if (prop.id, key) in known:
                    result["known"].append([key, known[(prop.id, key)], harness.describe(exc)])
                else:
                    fail(test, case, exc, "probe")
        for name, case in prop.regressions:
            test = prop.tests[name]
            try:
                ctx = harness.Ctx()
                run_case(harness, test, case, ctx)
            except (Exception, harness.Hang) as exc:
                fail(test, case, exc, "fixed input")
        if result["failures"]:
            write()
            return

    for name, test in prop.tests.items():
        if args.only and name != args.only:
            continue
        total = test.quick if tier == "quick" else test.thorough
        if not total:
            continue  # only has fixed inputs
        total = max(int(total * args.scale), 1)
        examples = total // count + (1 if index < total % count else 0)
        if examples <= 0:
            continue
        ctx = harness.Ctx()
        stats = {"evaluations": 0, "nontrivial": 0, "skipped": 0, "seconds": 0.0}
        last = {}
        shard_seed = zlib.crc32(f"{seed}|{prop.id}|{name}|{index}".encode())

        def body(case):
            if real_time() > deadline and "failure" not in last:
                stats["skipped"] += 1
                return
            stats["evaluations"] += 1
            last["case"] = case
            try:
                run_case(harness, test, case, ctx)
            except hypothesis.errors.HypothesisException:
                raise
            except Exception as exc:
                last["failure"] = (case, exc)
                raise
            if ctx._nontrivial:
                stats["nontrivial"] += 1
                hashes.add(harness.case_hash(name, case))
                if len(samples) < 400:
                    samples.append((name, harness.short(case, 700)))

        runner = given(test.strategy)(lambda case: body(case))
        runner = settings(
            max_examples=examples,
            database=None,
            deadline=None,
            derandomize=False,
            report_multiple_bugs=False,
            print_blob=False,
            phases=(Phase.generate, Phase.shrink),
            suppress_health_check=[
                HealthCheck.too_slow,
                HealthCheck.data_too_large,
                HealthCheck.large_base_example,
                HealthCheck.nested_given,
            ],
        )(runner)
        runner = hseed(shard_seed)(runner)
        started = real_time()
        stop = False
        try:
            runner()
        except harness.Hang as exc:
            fail(test, last["case"], exc, "generated (hang, not shrunk)")
            stop = True
        except BaseException as exc:  # noqa
            if "failure" in last:
                fail(test, last["failure"][0], last["failure"][1], "generated and shrunk")
                stop = True
            else:
                import traceback

                result["error"] = f"{name}: {type(exc).__name__}: {exc}\n{traceback.format_exc()[-3000:]}"
                stop = True
        stats["seconds"] = real_time() - started
        result["tests"][name] = stats
        result["labels"][name] = ctx.labels
        result["excluded"][name] = ctx.excluded
        if stop:
            break
    # a spread of samples over the tests, from the later (less trivial) cases
    chosen = []
    for name in prop.tests:
        mine = [s for s in samples if s[0] == name]
        chosen += mine[len(mine) // 2 : len(mine) // 2 + 2]
    result["samples"] = chosen
    write()


# ---------------------------------------------------------------- the parent


def parent_main(args):
    started = real_time()
    tier, seed, pid = args.tier, args.seed, args.property
    scratch = tempfile.mkdtemp(prefix=f"verif-{pid}-", dir="/tmp")
    code = EXIT_ERROR
    procs = []

    def cleanup():
        for p in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        for p in procs:
            p.wait()
        shutil.rmtree(scratch, ignore_errors=True)

    def on_term(signum, frame):
        cleanup()
        os._exit(EXIT_ERROR)

    signal.signal(signal.SIGTERM, on_term)
    try:
        shards = args.shards
        outs, logs = [], []
        for i in range(shards):
            work = os.path.join(scratch, f"s{i}")
            os.makedirs(work)
            out = os.path.join(scratch, f"s{i}.json")
            log = os.path.join(scratch, f"s{i}.log")
            cmd = [sys.executable, "-W", "ignore", os.path.abspath(__file__), pid, "--shard", f"{i}/{shards}",
                   "--tier", tier, "--seed", str(seed), "--out", out, "--scratch", work,
                   "--scale", str(args.scale)]
            if args.only:
                cmd += ["--only", args.only]
            with open(log, "wb") as logf:
                procs.append(subprocess.Popen(cmd, stdout=logf, stderr=logf, stdin=subprocess.DEVNULL,
                                              start_new_session=True))
            outs.append(out)
            logs.append(log)

        results = {}
        errors = []
        while len(results) + len(errors) < shards:
            time.sleep(0.05)
            for i, p in enumerate(procs):
                if i in results or any(e[0] == i for e in errors):
                    continue
                if p.poll() is not None:
                    if os.path.exists(outs[i]):
                        with open(outs[i]) as f:
                            results[i] = json.load(f)
                        if results[i]["error"]:
                            errors_text = results[i]["error"]
                            if not results[i]["failures"]:
                                errors.append((i, errors_text))
                                results.pop(i)
                    else:
                        with open(logs[i], errors="replace") as f:
                            errors.append((i, f"shard {i} ended with {p.returncode}: {f.read()[-3000:]}"))
            if any(r["failures"] for r in results.values()):
                break
            if real_time() - started > HARD_STOP[tier]:
                errors.append((-1, "hard stop: the run did not finish in its time (inconclusive)"))
                break

        failures = [(i, f) for i, r in sorted(results.items()) for f in r["failures"]]
        evaluations = sum(t["evaluations"] for r in results.values() for t in r["tests"].values())
        skipped = sum(t["skipped"] for r in results.values() for t in r["tests"].values())
        hashes = set()
        for i in results:
            if os.path.exists(outs[i] + ".h"):
                with open(outs[i] + ".h", "rb") as f:
                    blob = f.read()
                hashes.update(blob[k : k + 8] for k in range(0, len(blob), 8))
        per_test, labels, excluded, samples = {}, {}, {}, []
        for i, r in sorted(results.items()):
            for name, t in r["tests"].items():
                agg = per_test.setdefault(name, {"evaluations": 0, "nontrivial": 0, "cpu_s": 0})
                agg["evaluations"] += t["evaluations"]
                agg["nontrivial"] += t["nontrivial"]
                agg["cpu_s"] = round(agg["cpu_s"] + t["seconds"], 1)
            for kind, store in ((r["labels"], labels), (r["excluded"], excluded)):
                for name, values in kind.items():
                    mine = store.setdefault(name, {})
                    for label, n in values.items():
                        mine[str(label)] = mine.get(str(label), 0) + n
            samples += [s for s in r.get("samples", [])]
        picked, seen = [], {}
        for name, text in samples:
            if seen.get(name, 0) < 3:
                seen[name] = seen.get(name, 0) + 1
                picked.append({"test": name, "case": text})

        import harness

        sys.path.insert(0, ROOT)
        prop = harness.load(pid)
        replays = []
        if failures:
            directory = os.path.join(ROOT, "replays")
            os.makedirs(directory, exist_ok=True)
            done = set()
            for _, failure in failures:
                if failure["test"] in done and failure["origin"].startswith("generated"):
                    continue
                done.add(failure["test"])
                name = f"{pid}-{failure['test']}-{abs(hash(failure['case'])) % (1 << 40):010x}.json"
                path = os.path.join(directory, name)
                with open(path, "w") as f:
                    json.dump({"property": pid, **failure, "seed": seed, "tier": tier}, f, indent=1)
                replays.append((path, failure))

        evidence = {
            "property": pid,
            "tier": tier,
            "seed": seed,
            "level": prop.level,
            "coverage": {
                "evaluations": evaluations,
                "distinct_nontrivial": len(hashes),
                "rule": prop.rule,
                "samples": picked,
                "tests": per_test,
                "labels": labels,
                "excluded_known": excluded,
                "skipped_by_time_budget": skipped,
                "fixed_inputs": len(prop.regressions) + len(prop.probes),
                "shards": shards,
            },
            "assumptions": prop.assumptions,
            "wall_s": round(real_time() - started, 2),
            "violations": len(replays),
        }
        if not args.only and args.scale == 1:
            os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
            with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as f:
                json.dump(evidence, f, indent=1)

        for r in results.values():
            for key, text, message in r["known"]:
                print(f"KNOWN-FINDING: property={pid} {text}")
        if args.verbose:
            cov = evidence["coverage"]
            for name in per_test:
                print(name, per_test[name], "labels:", labels.get(name), "excluded:", excluded.get(name) or "-")
            if os.environ.get("SAMPLES"):
                for s in cov["samples"]:
                    print("  ", s["test"], s["case"][:400])
        for path, failure in replays:
            print(f"{pid}/{failure['test']} ({failure['origin']}): {failure['message'][:3000]}")
            print(f"  case: {failure['case_repr'][:3000]}")
            print(f"VIOLATION property={pid} replay={path}")
        if replays:
            code = EXIT_VIOLATION
        elif errors:
            for i, text in errors[:3]:
                print(f"ERROR in check {pid} (shard {i}): {text}")
            code = EXIT_ERROR
        else:
            print(
                f"OK property={pid} evaluations={evaluations} distinct_nontrivial={len(hashes)} "
                f"wall_s={evidence['wall_s']}" + (f" skipped={skipped}" if skipped else "")
            )
            code = EXIT_OK
    finally:
        cleanup()
    return code


def replay_main(args):
    import harness

    path = os.path.abspath(args.replay)
    with open(path) as f:
        saved = json.load(f)
    scratch = tempfile.mkdtemp(prefix=f"verif-{args.property}-", dir="/tmp")
    try:
        os.chdir(scratch)
        sys.path.insert(0, ROOT)
        signal.signal(signal.SIGPROF, on_alarm)
        signal.signal(signal.SIGALRM, on_alarm)
        prop = harness.load(args.property)
        test = prop.tests[saved["test"]]
        case = harness.decode_case(saved["case"])
        try:
            run_case(harness, test, case, harness.Ctx())
        except (Exception, harness.Hang) as exc:
            print(f"{args.property}/{test.name}: {harness.describe(exc)}")
            print(f"  case: {harness.short(case, 3000)}")
            print(f"VIOLATION property={args.property} replay={path}")
            return EXIT_VIOLATION
        print(f"OK property={args.property}: the replay passes")
        return EXIT_OK
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    parser.add_argument("--shards", type=int, default=8)
    parser.add_argument("--scale", type=float, default=1)
    parser.add_argument("--only")
    parser.add_argument("--replay")
    parser.add_argument("--verbose", "-v", action="store_true")
    parser.add_argument("--shard")
    parser.add_argument("--out")
    parser.add_argument("--scratch")
    args = parser.parse_args()
    if args.shard:
        shard_main(args)
        # daemon / attendant threads of the code under test must not hold us
        sys.stdout.flush()
        os._exit(0)
    if args.replay:
        return replay_main(args)
    return parent_main(args)


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code)
