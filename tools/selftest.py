#!/usr/bin/env python3
"""Makes sure that the checks notice what they should.

Recordings: takes executions of the implementation, alters a single field of a single event (and drops
what comes after it), and expects validation to report exactly that event.

Generated tests: alters a single expectation of a single test, and expects the harness to report it.

Not part of any check. Usage: python3 tools/selftest.py [--seed N]
"""
import collections
import copy
import json
import os
import random
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import check  # noqa: E402

SEED = int(sys.argv[sys.argv.index("--seed") + 1]) if "--seed" in sys.argv else 1
PER_FIELD = 25
rng = random.Random(SEED)


def other(v):
    """Something else that looks much the same; None if there's no such thing."""
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + 1
    if isinstance(v, str):
        return {"ok": "err", "err": "ok", "none": "A", "": "ok"}.get(v, "none" if v in ("A", "B") else v + "x")
    if isinstance(v, list):
        if v == []:
            return None
        i = rng.randrange(len(v))
        changed = other(v[i])
        return None if changed is None else v[:i] + [changed] + v[i + 1:]
    if isinstance(v, dict):
        k = rng.choice(sorted(v))
        changed = other(v[k])
        return None if changed is None else dict(v, **{k: changed})
    return None


def altered_disk(disk, ev, index):
    """The files at that point, one of them having another content (whose content is known)."""
    current = disk
    for e in ev[:index + 1]:
        if not e["dsame"]:
            current = e["disk"]
    known = [f for f in sorted(current) if current[f]["k"] == "text"]
    if not known:
        return None
    f = rng.choice(known)
    return dict(current, **{f: {"k": "text", "t": current[f]["t"] + [120]}})


def text_at(ev, index):
    text = []
    for e in ev[:index + 1]:
        if not e["same"]:
            text = e["t"]
    return text


def buffer_corruptions(trace, index):
    ev = trace["ev"]
    e = ev[index]
    if not e["ok"]:
        return
    yield "t", {"same": False, "t": text_at(ev, index) + [120]}
    if len(text_at(ev, index)) > 1:
        yield "t (last character lost)", {"same": False, "t": text_at(ev, index)[:-1]}
    yield "cur", {"cur": other(e["cur"])}
    yield "mod", {"mod": not e["mod"]}
    yield "cbs (additional)", {"cbs": e["cbs"] + [[77, 7]]}
    if e["cbs"] and not e["same"]:
        yield "cbs (missing)", {"cbs": e["cbs"][1:]}
        yield "cbs (elsewhere)", {"cbs": [other(e["cbs"][0])] + e["cbs"][1:]}
    yield "late", {"late": True}
    changed = other(e["res"])
    if changed is not None:
        yield "res", {"res": changed}
    for k in ("id", "syn", "path"):
        yield k, {k: other(e[k])}
    yield "ok", {"ok": False}
    disk = altered_disk(trace["disk"], ev, index)
    if disk and all(x["op"].get("limit", -1) == -1 for x in ev[:index + 1]):
        yield "disk", {"dsame": False, "disk": disk}


def workspace_corruptions(trace, index):
    ev = trace["ev"]
    e = ev[index]
    if not e["ok"]:
        return
    for k in ("idx", "list", "cpath", "root", "t", "cur", "mod", "syn", "path", "fname", "fext", "res"):
        changed = other(e[k])
        if changed is not None and (e["has"] or k in ("root", "res")):
            yield k, {k: changed}
    yield "has", {"has": not e["has"]}
    if e["has"]:
        yield "id", {"id": e["id"] + 1}
    if e["list"]:
        yield "list (shorter)", {"list": e["list"][1:]}
    yield "cbs (additional)", {"cbs": e["cbs"] + [[77, 7]]}
    if e["tags"]:
        yield "tags", {"tags": [t + 1 for t in e["tags"]]}
    yield "ok", {"ok": False}
    if e["op"]["op"] != "write":
        disk = altered_disk(trace["disk"], ev, index)
        if disk and all(x["op"].get("o", {}).get("limit", -1) == -1 for x in ev[:index + 1]):
            yield "disk", {"dsame": False, "disk": disk}


def token_corruptions(trace, index):
    e = trace["ev"][index]
    if not e["ok"]:
        return
    yield "ok", {"ok": False}
    yield "error", {"error": not e["error"]}
    tokens = e["tokens"]
    lexemes = [i for i, t in enumerate(tokens) if not t["n"] and t["v"]]
    if not lexemes:
        return
    i = rng.choice(lexemes)
    for k in ("v", "p", "s"):
        changed = other(tokens[i][k])
        if changed is not None:
            yield "tokens." + k, {"tokens": tokens[:i] + [dict(tokens[i], **{k: changed})] + tokens[i + 1:]}
    yield "tokens (missing)", {"tokens": tokens[:i] + tokens[i + 1:]}
    yield "tokens (additional)", {"tokens": tokens[:i] + [tokens[i]] + tokens[i:]}
    yield "tokens (line break added)", {"tokens": tokens[:i] + [{"n": True}] + tokens[i:]}
    if len(tokens[i]["v"]) > 1:
        yield "tokens (cut short)", {"tokens": tokens[:i] + [dict(tokens[i], v=tokens[i]["v"][:-1])] + tokens[i + 1:]}


def corrupt_recordings(work, kind, command, suites, corruptions, module):
    traces = []
    for suite in suites.split(","):
        _, path = check.record_traces(work, suite, command, [f"suites={suite}", f"seed={SEED}", "count=40"], 600)
        traces += [json.loads(line) for line in open(path)]
    pool = collections.defaultdict(list)
    for n, trace in enumerate(traces):
        for index in range(len(trace["ev"])):
            for field, change in corruptions(trace, index):
                op = trace["ev"][index]["op"]["op"]
                pool[field, op].append((n, index, change))
    out, wanted = [], {}
    for (field, op), candidates in sorted(pool.items()):
        for n, index, change in rng.sample(candidates, min(len(candidates), 5)):
            trace = copy.copy(traces[n])
            trace["name"] = f"x{len(out)}"
            trace["ev"] = traces[n]["ev"][:index] + [dict(traces[n]["ev"][index], **change)]
            out.append(trace)
            wanted[trace["name"]] = (field, op, index + 1, change, traces[n]["name"])
    path = os.path.join(work, f"corrupt-{kind}.ndjson")
    with open(path, "w") as f:
        for trace in out:
            f.write(json.dumps(trace) + "\n")
    stats = check.finish_tlc(check.start_tlc(work, kind, module, module, {"TRACES": path}), 3000)
    seen = {(c["trace"], c["event"]) for c in stats["printed"]}
    missed = [w for name, w in wanted.items() if (name, w[2]) not in seen]
    early = [c for c in stats["printed"] if c["trace"] in wanted and c["event"] != wanted[c["trace"]][2]]
    print(f"{kind}: {len(out)} corrupted recordings ({len({f for f, _ in pool})} fields, "
          f"{len({o for _, o in pool})} operations), {len(missed)} not reported, {len(early)} reported elsewhere")
    for w in missed[:40]:
        print("   not reported:", w[0], "after", w[1], json.dumps(w[3])[:200], w[4], w[2])
    return len(missed) + len(early)


def expectations(test):
    if "text" in test:
        # Line breaks have neither, and positions can be told for a lexeme's first character only.
        shown = [i for i, c in enumerate(test["text"]) if c != 10]
        starts = [i for i in shown if i == 0 or test["text"][i - 1] == 10]
        for k, where in (("pos", starts), ("scopes", shown)):
            if where:
                i = rng.choice(where)
                yield k, dict(test, **{k: test[k][:i] + [other(test[k][i])] + test[k][i + 1:]})
        return
    if "setup" in test:
        for k, v in test["exp"].items():
            changed = other(v)
            if changed is not None and k != "id" and (test["exp"]["has"] or k in ("has", "root")):
                yield k, dict(test, exp=dict(test["exp"], **{k: changed}))
        if test["res"] != "":
            yield "res", dict(test, res=other(test["res"]))
        return
    if "queries" in test:
        i = rng.randrange(len(test["queries"]))
        q = test["queries"][i]
        changed = other(q["exp"]["res"])
        if changed is not None:
            qs = list(test["queries"])
            qs[i] = dict(q, exp=dict(q["exp"], res=changed))
            yield "res", dict(test, queries=qs)
        return
    exp = test["exp"]
    changes = {"t": exp["t"] + [120], "cur": other(exp["cur"]), "mod": not exp["mod"], "res": other(exp["res"]),
               "cbs": exp["cbs"] + [{"p": [77, 7], "must": True}]}
    for k, v in changes.items():
        if v is not None and not (k == "res" and exp["res"] == ""):
            yield k, dict(test, exp=dict(exp, **{k: v}))
    known = [f for f in exp["disk"] if exp["disk"][f]["k"] == "text"]
    if known and any(o["op"] in ("write", "save") for o in test["ops"]):
        disk = dict(exp["disk"], **{known[0]: {"k": "text", "t": exp["disk"][known[0]]["t"] + [120]}})
        yield "disk", dict(test, exp=dict(exp, disk=disk))


def corrupt_tests(work, module, config, options):
    stats = check.finish_tlc(check.start_tlc(work, config, module, config), 900)
    lines = [line for line in open(stats["output"], errors="replace") if line.startswith('"{')]
    changed = []
    for line in rng.sample(lines, min(len(lines), 300)):
        changed += list(expectations(json.loads(json.loads(line))))
    # One file each, so that it's clear which of them are reported.
    missed = []
    path = os.path.join(work, "altered.out")
    with open(path, "w") as f:
        for _, test in changed:
            f.write(json.dumps(json.dumps(test)) + "\n")
    _, found = check.replay_tests(work, config, path, list(options), 600)
    reported = collections.Counter(json.dumps(c["test"], sort_keys=True) for c in found)
    for field, test in changed:
        if "queries" not in test and not reported[json.dumps(test, sort_keys=True)]:
            missed.append((field, test))
    queries = sum("queries" in test for _, test in changed)
    lost = queries - sum(1 for c in found if "queries" in c["test"]) if queries else 0
    print(f"{config}: {len(changed)} altered tests, {len(found)} reports, {len(missed) + max(lost, 0)} not reported")
    for field, test in missed[:10]:
        print("   not reported:", field, json.dumps(test)[:600])
    return len(missed) + max(lost, 0)


def main():
    check.build()
    work = os.path.join(check.BUILD, "selftest")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    bad = 0
    try:
        bad += corrupt_recordings(work, "buffer", "drive", "edit,oob,history-files,groups-files,files,replace,cursor,search,values,lines,read",
                                  buffer_corruptions, "TraceBuffer")
        bad += corrupt_recordings(work, "workspace", "workspaces", "ws-order,ws-isolate,ws-reopen,ws-listing,ws-syntax",
                                  workspace_corruptions, "TraceWorkspace")
        bad += corrupt_recordings(work, "tokens", "tokens", "tokens,tokens-own", token_corruptions, "TraceTokens")
        for module, config, options in [
                ("GenText", "GenTextQuick", []), ("GenText", "GenTextOutQuick", []), ("GenText", "GenTextDirectQuick", []),
                ("GenValues", "GenValuesQuick", []), ("GenCursor", "GenCursorQuick", []),
                ("GenHistory", "GenHistoryQuick", ["files=1"]), ("GenFiles", "GenFilesQuick", ["files=1"]),
                ("GenTokens", "GenTokensQuick", ["tokens=1"]),
                ("GenWorkspace", "GenWorkspaceOrderQuick", ["workspaces=1"]),
                ("GenWorkspace", "GenWorkspaceEditsQuick", ["workspaces=1"]),
                ("GenWorkspace", "GenWorkspaceFilesQuick", ["workspaces=1"]),
                ("GenWorkspace", "GenWorkspaceSyntaxQuick", ["workspaces=1"])]:
            bad += corrupt_tests(work, module, config, options)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
