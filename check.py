#!/usr/bin/env python3
"""Decides one property: check.py <property> [--tier quick|thorough] [--seed N]
                        check.py --replay <file>

Every check consists of some of these, all of which end up being judged by TLC
using the specifications in spec/:

  generate  TLC explores a bounded model exhaustively, checking its invariants,
            and prints a test for each of its transitions; the harness runs
            those against the implementation.
  drive     The harness runs randomized and adversarial executions of the
            implementation, recording everything observable; TLC validates
            these recordings against the specification.
  model     TLC checks a model of the design (no implementation involved);
            refute expects it to find an error.
  segments, reference
            Data that the specification has in common with the harness or the
            implementation's Unicode library is compared with theirs.

What fails is a set of facts (e.g. "undo", for the content after an undo), and
every property is made up of some of them; other facts are left to the checks
of other properties.

Exit status: 0 if the property held on everything explored, 1 (along with a
VIOLATION line) if it didn't, 2 if the check itself couldn't be completed.
"""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
BINARY = os.path.join(HARNESS, "target", "debug", "scribe-conformance")
BUILD = os.path.join(ROOT, "build")
KNOWN = os.path.join(ROOT, "known-findings.txt")
TLC_JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

sys.path.insert(0, ROOT)
from plan import FEW, PLAN, TRACE_MODULES  # noqa: E402


class ToolError(Exception):
    pass


def log(*args):
    print(*args, file=sys.stderr, flush=True)


# --- Building

def build():
    """Builds the harness along with the working tree of /repo."""
    started = time.time()
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    run = subprocess.run(
        ["cargo", "build", "--offline", "--quiet"], cwd=HARNESS, env=env,
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    if run.returncode != 0:
        raise ToolError("the harness can't be built:\n" + run.stdout[-3000:])
    log(f"built in {time.time() - started:.1f}s")


# --- TLC

def tlc_command(module, config, meta, workers, memory):
    return ["java", "-XX:+UseParallelGC", "-Xss256m", f"-Xmx{memory}g", "-cp", TLC_JARS, "tlc2.TLC",
            "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
            "-config", config, module]


def start_tlc(work, name, module, config, env=None, workers=8, memory=10):
    meta = os.path.join(work, "tlc-" + name)
    output = os.path.join(work, name + ".out")
    handle = open(output, "w")
    process = subprocess.Popen(
        tlc_command(module + ".tla", config + ".cfg", meta, workers, memory), cwd=SPEC,
        env=dict(os.environ, **(env or {})), stdout=handle, stderr=subprocess.STDOUT)
    return process, handle, output


def finish_tlc(started, timeout, allow_incomplete=False):
    process, handle, output = started
    try:
        process.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        process.kill()
        process.wait()
        raise ToolError(f"TLC timed out: {output}")
    finally:
        handle.close()
    stats = {"states": 0, "transitions": 0, "complete": False, "printed": []}
    tail = []
    with open(output, errors="replace") as lines:
        for line in lines:
            if line.startswith('"{'):
                stats["printed_count"] = stats.get("printed_count", 0) + 1
                if '\\"contradiction\\"' in line[:40]:
                    try:
                        stats["printed"].append(json.loads(json.loads(line)))
                    except ValueError:
                        raise ToolError(f"malformed output of TLC: {line[:300]}")
                continue
            found = re.match(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", line)
            if found:
                stats["transitions"], stats["states"] = int(found[1]), int(found[2])
            if "No error has been found" in line:
                stats["complete"] = True
            if not line.startswith(("Semantic", "Linting", "Parsing")):
                tail.append(line[:2000])
                tail = tail[-60:]
    if not stats["complete"] and not allow_incomplete:
        raise ToolError(f"TLC rejected its input ({output}):\n" + "".join(tail))
    stats["output"] = output
    return stats


# --- The harness

def harness(args, timeout=800):
    run = subprocess.run([BINARY] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    if run.returncode != 0:
        return None, run
    return json.loads(run.stdout.strip().splitlines()[-1]), run


SHARDS = 8


def replay_tests(work, name, tests, options, timeout):
    """Runs generated tests. Returns statistics and contradictions."""
    jobs = []
    for i in range(SHARDS):
        output = os.path.join(work, f"{name}.{i}.found")
        args = ["replay", f"in={tests}", f"out={output}", f"shard={i}", f"shards={SHARDS}"] + options
        jobs.append((output, args, subprocess.Popen(
            [BINARY] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
    total = {"tests": 0, "steps": 0, "skipped": 0, "found": 0}
    found = []
    try:
        for output, args, job in jobs:
            out, err = job.communicate(timeout=timeout)
            if job.returncode == 0:
                stats = json.loads(out.strip().splitlines()[-1])
                for k in total:
                    total[k] += stats[k]
                found += [json.loads(line) for line in open(output)]
            else:
                found.append(replay_crashing(output, args, timeout))
                total["found"] += 1
            remove(output)
    finally:
        for _, _, job in jobs:
            if job.poll() is None:
                job.kill()
    return total, found


def replay_crashing(output, args, timeout):
    """When tests end the process (rather than panic), finds out which one does."""
    stats, run = harness(args + ["stepwise=1", "budget=100000"], timeout * 3)
    pending = output + ".pending"
    if stats is not None or not os.path.exists(pending):
        raise ToolError(f"harness failed: {run.returncode} {run.stderr[-2000:]}")
    test = json.load(open(pending))
    if "text" in test:
        facts = {"tokens", "scopes"}
    elif "setup" in test:
        facts = {f for fs in test["facts"].values() for f in fs}
    else:
        exps = [q["exp"] for q in test["queries"]] if "queries" in test else [test["exp"]]
        facts = {next((e["facts"][i] for i in (0, 3) if e["facts"][i] != "none"), "total") for e in exps}
    return {"contradiction": sorted(facts | {"total"}), "test": test, "observed": f"crashed: {run.returncode}"}


def record_traces(work, name, command, options, timeout):
    """Records executions. Returns statistics and the file they're in."""
    output = os.path.join(work, name + ".ndjson")
    args = [command, f"out={output}"] + options
    stats, run = harness(args, timeout)
    if stats is None:
        stats, run = harness(args + ["stepwise=1", "budget=100000"], timeout * 3)
        pending = output + ".pending"
        if stats is not None or not os.path.exists(pending):
            raise ToolError(f"harness failed: {run.returncode} {run.stderr[-2000:]}")
        shutil.copy(pending, output)
        stats = {"traces": 1, "events": 0}
    return stats, output


CHUNK = 400


def recordings(work, command, module, options, count, timeout):
    """Records executions and has them validated, a few hundred at a time."""
    firsts = range(0, count, CHUNK)
    parallel = min(4, len(firsts))
    if any("huge" in option for option in options) and count > FEW:
        size = FEW
        firsts = range(0, count, FEW)
        parallel = min(3, len(firsts))
    elif count <= CHUNK * 2:
        firsts, parallel, size = [0], 1, count
    else:
        size = CHUNK

    def one(first):
        name = f"{command}-{first}"
        ran, recording = record_traces(
            work, name, command, options + [f"first={first}", f"count={min(size, count - first)}"], timeout)
        stats = finish_tlc(
            start_tlc(work, name + "-tlc", module, module, {"TRACES": recording}, 8 // parallel, 11 if parallel == 1 else 20 // parallel),
            timeout, allow_incomplete=True)
        if not stats["complete"] and not stats["printed"]:
            tail = open(stats["output"], errors="replace").read()[-3000:]
            raise ToolError(f"TLC didn't validate {recording}:\n{tail}")
        keep_failing_traces(stats["printed"], recording)
        samples = sample_traces(recording, 1) if first == 0 else []
        remove(recording)
        remove(stats["output"])
        return {"found": stats["printed"], "states": stats["states"], "transitions": stats["transitions"],
                "traces": ran["traces"], "events": ran["events"], "samples": samples}

    if parallel == 1:
        return [one(first) for first in firsts]
    with concurrent.futures.ThreadPoolExecutor(parallel) as pool:
        return list(pool.map(one, firsts))


# --- Known findings

def known_findings(prop):
    """Entries are lines of the form 'known: property=<id> match=<substring> <what fails>'."""
    entries = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            found = re.match(r"known: property=(\S+) match=(\S+) (.*)", line)
            if found and found[1] == prop:
                entries.append((found[2], found[3].strip()))
    return entries


# --- Checks

def run_check(prop, tier, seed):
    started = time.time()
    plan = PLAN[prop]
    facts = set(plan["facts"])
    work = os.path.join(BUILD, f"{prop}-{os.getpid()}")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    contradictions, other, samples = [], set(), []
    coverage = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
                "events_validated": 0, "tests_generated": 0, "models": {}, "recordings": {}}
    timeout = 800 if tier == "quick" else 14400

    def collect(found, source):
        for c in found:
            hit = facts & set(c["contradiction"])
            c["source"] = source
            if hit:
                c["facts"] = sorted(hit)
                contradictions.append(c)
            other.update(set(c["contradiction"]) - facts)

    try:
        steps = plan[tier]
        # TLC explores models while the harness is being built.
        first = next((s for s in steps if s[0] in ("generate", "model")), None)
        ahead = None
        if first:
            ahead = start_tlc(work, first[2], first[1], first[2])
        try:
            build()
        except BaseException:
            if ahead:
                ahead[0].kill()
            raise

        for step in steps:
            kind = step[0]
            if kind in ("generate", "model"):
                _, module, config = step[:3]
                job = ahead if step is first else start_tlc(work, config, module, config)
                stats = finish_tlc(job, timeout)
                coverage["states"] += stats["states"]
                coverage["transitions"] += stats["transitions"]
                entry = {"states": stats["states"], "transitions": stats["transitions"]}
                if kind == "generate":
                    ran, found = replay_tests(work, config, stats["output"], list(step[3]), timeout)
                    collect(found, config)
                    coverage["tests_generated"] += ran["tests"]
                    coverage["traces_validated_against_impl"] += ran["tests"] - ran["skipped"]
                    entry.update(tests=ran["tests"], steps=ran["steps"], skipped=ran["skipped"])
                    if ran["tests"] == 0 and not found:
                        raise ToolError(f"{config} generated no tests")
                    samples += sample_lines(stats["output"], 2)
                coverage["models"][config] = entry
                remove(stats["output"])
            elif kind == "drive":
                _, command, module, options, count = step
                options = [o.replace("{seed}", str(seed)) for o in options]
                options.append(f"budget={120 if tier == 'quick' else 900}")
                traces = events = 0
                for part in recordings(work, command, module, options, count, timeout):
                    collect(part["found"], command)
                    for k in ("states", "transitions"):
                        coverage[k] += part[k]
                    traces += part["traces"]
                    events += part["events"]
                    samples += part["samples"]
                if traces == 0:
                    raise ToolError(f"{command} recorded nothing")
                coverage["traces_validated_against_impl"] += traces
                coverage["events_validated"] += events
                coverage["recordings"][" ".join([command] + options + [f"count={count}"])] = {
                    "traces": traces, "events": events}
            elif kind == "reference":
                # Data that the specification has in common with the harness.
                _, command, name = step
                stats, run = harness([command])
                if stats != json.load(open(os.path.join(SPEC, name))):
                    raise ToolError(f"spec/{name} isn't what the harness says it is")
            elif kind == "refute":
                # A model that has to be wrong: it goes without something that's needed.
                _, module, config = step
                stats = finish_tlc(start_tlc(work, config, module, config), timeout, allow_incomplete=True)
                output = open(stats["output"], errors="replace").read()
                if not re.search(r"Error: Invariant \w+ is violated", output):
                    raise ToolError(f"{config} wasn't refuted:\n{output[-2000:]}")
                coverage["models"][config] = {"states": stats["states"], "refuted": True}
                remove(stats["output"])
            elif kind == "segments":
                # So that the specification's idea of clusters isn't its own.
                output = os.path.join(work, "segments.ndjson")
                ran, run = harness(["segments", f"out={output}", f"seed={seed}"])
                if ran is None:
                    raise ToolError(f"harness failed: {run.returncode} {run.stderr[-2000:]}")
                stats = finish_tlc(start_tlc(work, "segments", "Segments", "Segments", {"TRACES": output}), timeout)
                coverage["models"]["Segments"] = {"states": stats["states"], "transitions": stats["transitions"]}
                remove(output)
            else:
                raise ToolError(f"unknown step {step}")

        status = verdict(prop, contradictions, seed)
        coverage["samples"] = samples[:8]
        evidence = {
            "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
            "coverage": coverage, "wall_s": round(time.time() - started, 2),
            "violations": len(contradictions),
            "assumptions": plan.get("assumptions", []) + COMMON_ASSUMPTIONS,
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        path = os.path.join(ROOT, "evidence", prop + ".json")
        with open(path + ".tmp", "w") as out:
            json.dump(evidence, out, indent=1, ensure_ascii=False)
        os.replace(path + ".tmp", path)
        if other:
            log(f"note: facts of other properties were contradicted, too: {sorted(other)}")
        log(f"{prop}: {tier}, {coverage['states']} states, {coverage['transitions']} transitions, "
            f"{coverage['traces_validated_against_impl']} traces, {time.time() - started:.1f}s")
        return status
    finally:
        shutil.rmtree(work, ignore_errors=True)


COMMON_ASSUMPTIONS = [
    "TLC and the CommunityModules evaluate the specification correctly",
    "the harness records what the public API returns without altering it",
    "models are explored within the bounds stated in their configuration; recordings sample beyond them",
]


def remove(path):
    try:
        os.remove(path)
    except OSError:
        pass


def sample_lines(path, count):
    samples, n = [], 0
    with open(path, errors="replace") as lines:
        for line in lines:
            if line.startswith('"{'):
                n += 1
                if n in (50, 5000) or (n == 1 and count > 0):
                    samples.append(json.loads(json.loads(line)))
                    if len(samples) > count:
                        break
    return [trim(s) for s in samples[-count:]]


def trim(value):
    text = json.dumps(value, ensure_ascii=False)
    return value if len(text) < 3000 else text[:3000] + "..."


def sample_traces(path, count):
    samples = []
    with open(path, errors="replace") as lines:
        for i, line in enumerate(lines):
            if i == 3 or (i == 0 and count > 0):
                try:
                    trace = json.loads(line)
                except ValueError:
                    continue
                trace["ev"] = trace["ev"][:6]
                samples.append(trim(trace))
            if i >= 3:
                break
    return samples[-count:]


def keep_failing_traces(printed, recording):
    """Attaches executions to what they contradict."""
    wanted = {c.get("trace") for c in printed}
    if not wanted:
        return
    by_name = {}
    with open(recording, errors="replace") as lines:
        for line in lines:
            try:
                trace = json.loads(line)
            except ValueError:
                continue
            if trace.get("name") in wanted:
                trace["ev"] = [e.get("op") for e in trace["ev"]]
                by_name[trace["name"]] = trace
    # The shortest ones are the most useful.
    printed.sort(key=lambda c: c.get("event", 0))
    for c in printed[:50]:
        trace = by_name.get(c.get("trace"))
        if trace:
            c["execution"] = {k: v for k, v in trace.items() if k != "ev"}
            c["execution"]["ops"] = trace["ev"][: c.get("event", len(trace["ev"]))]


def verdict(prop, contradictions, seed):
    known = known_findings(prop)
    for match, what in known:
        print(f"KNOWN-FINDING: property={prop} {what}")
    fresh = [c for c in contradictions
             if not any(m in json.dumps(c, ensure_ascii=False) for m, _ in known)]
    if not fresh:
        return 0
    # The shortest execution comes first.
    def size(c):
        ops = c.get("test", {}).get("ops") if isinstance(c.get("test"), dict) else None
        ops = ops or c.get("execution", {}).get("ops")
        return len(json.dumps(ops)) if ops is not None or "test" in c else 1 << 30
    fresh.sort(key=size)
    folder = os.path.join(BUILD, "replays")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, f"{prop}.json")
    with open(path, "w") as out:
        json.dump({"property": prop, "seed": seed, "contradictions": fresh[:20], "total": len(fresh)},
                  out, indent=1, ensure_ascii=False)
    first = fresh[0]
    log(f"contradicted: {first['facts']} in {first['source']}")
    log(json.dumps({k: v for k, v in first.items() if k in ("op", "observed", "predicted", "before")},
                   ensure_ascii=False)[:1500])
    print(f"VIOLATION property={prop} replay={os.path.relpath(path, ROOT)}", flush=True)
    return 1


def as_execution(c):
    """The execution that a generated test amounts to."""
    test = c["test"]
    if "text" in test:
        return {"kind": "tokens", "ops": [{"op": "tokens", "syn": "Toy", "t": test["text"], "again": False}]}
    if "setup" in test:
        return dict(test["setup"], kind="workspace", disk=test["disk"], ops=test["ops"])
    ops = test["ops"]
    return {"kind": "buffer", "ops": ops + [c["op"]] if test.get("queries") else ops}


def replay(path):
    """Runs the executions that a check complained about once more."""
    data = json.load(open(path))
    build()
    work = os.path.join(BUILD, f"replay-{os.getpid()}")
    os.makedirs(work, exist_ok=True)
    status = 0
    try:
        for i, c in enumerate(data["contradictions"]):
            if "execution" not in c and "test" not in c:
                continue
            execution = c.get("execution") or as_execution(c)
            kind = execution.get("kind", "buffer")
            script = os.path.join(work, f"script-{i}.json")
            json.dump(execution, open(script, "w"))
            ran, recording = record_traces(work, f"replay-{i}", "script", [f"in={script}", f"kind={kind}", "patience=100", "budget=100000"], 900)
            module = TRACE_MODULES[kind]
            stats = finish_tlc(start_tlc(work, f"replay-{i}-tlc", module, module, {"TRACES": recording}),
                               900, allow_incomplete=True)
            for found in stats["printed"]:
                print(json.dumps(found, ensure_ascii=False))
                status = 1
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return status


def main():
    args = sys.argv[1:]
    if args[:1] == ["--replay"]:
        return replay(args[1])
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--seed" in args:
        seed = int(args[args.index("--seed") + 1])
    return run_check(prop, tier, seed)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except ToolError as error:
        log(f"error: {error}")
        sys.exit(2)
    except subprocess.TimeoutExpired as error:
        log(f"error: {error}")
        sys.exit(2)
