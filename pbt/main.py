"""Entry point: main.py <property> [--replay FILE] [--count N] [--seed N]"""
import argparse
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import core

sys.path.insert(0, core.REPO)


def load_check(pid):
    import registry

    return registry.get(pid)


def with_shim(check):
    """Runs this program again with the shim preloaded; its exit status, or None if it is loaded."""
    if not check.shim or os.environ.get("VERIF_SHIM"):
        return None
    d = tempfile.mkdtemp(prefix="verif-shim-")
    try:
        os.chmod(d, 0o755)
        so = os.path.join(d, "shim.so")
        src = os.path.join(core.VERIF, "shim", "shim.c")
        r = subprocess.run(["gcc", "-O1", "-fPIC", "-shared", "-o", so, src, "-ldl"], capture_output=True, text=True)
        if r.returncode:
            raise core.HarnessError("cannot build the shim: %s" % r.stderr)
        env = dict(os.environ, LD_PRELOAD=so, VERIF_SHIM=so)
        return subprocess.run([sys.executable, "-B", os.path.abspath(__file__)] + sys.argv[1:], env=env).returncode
    finally:
        shutil.rmtree(d, ignore_errors=True)


def replay(check, path, base):
    """Exit status 1 if the replay fails, 0 if it holds."""
    with open(path) as f:
        data = json.load(f)
    check.prepare(base)
    work = os.path.join(base, "replay")
    os.mkdir(work)
    out = os.fdopen(os.dup(1), "w")
    core._quiet()
    core.confine(work)
    ctx = core.Ctx(work)
    cases = data["cases"] if "cases" in data else [data["case"]]
    for case in cases:
        bad = core.run_case(check, case, ctx, limit=90)
        if bad is not None:
            out.write("%s\n" % bad[1])
            out.flush()
            return 1
    out.write("held\n")
    out.flush()
    return 0


def run_replay(pid, path):
    r = subprocess.run(
        [sys.executable, "-B", os.path.join(HERE, "main.py"), pid, "--replay", path],
        capture_output=True,
        text=True,
        errors="replace",
        timeout=600,
    )
    if r.returncode not in (0, 1):
        raise core.HarnessError("replay ended with %s: %s" % (r.returncode, r.stderr[-3000:]))
    return r.returncode == 1, r.stdout


def confirm(pid, failure, replay_dir):
    """Writes the smallest replay file that fails in a fresh process."""
    os.makedirs(replay_dir, exist_ok=True)
    path = os.path.join(replay_dir, "%s.json" % pid)

    def attempt(cases):
        with open(path, "w") as f:
            data = dict(property=pid, message=failure["message"], kind=failure["kind"])
            if len(cases) == 1:
                data["case"] = cases[0]
            else:
                data["cases"] = cases
            json.dump(data, f, indent=1)
        return run_replay(pid, path)

    for cases in ([failure["case"]], [failure["original"]]):
        bad, out = attempt(cases)
        if bad:
            return path, out
    # The failure depends on what the process did before
    cases = failure["history"]
    bad, out = attempt(cases)
    if not bad:
        return None, None
    last_out = out
    t0 = time.time()
    while len(cases) > 2 and time.time() - t0 < 120:
        half = cases[:-1][len(cases) // 2 :] + cases[-1:]
        first = cases[:-1][: len(cases) // 2] + cases[-1:]
        for cand in (half, first):
            if len(cand) < len(cases):
                bad, out = attempt(cand)
                if bad:
                    cases, last_out = cand, out
                    break
        else:
            break
    attempt(cases)
    return path, last_out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--count", type=int)
    ap.add_argument("--seed", type=int)
    ap.add_argument("--tier")
    args = ap.parse_args()
    t0 = time.time()
    seed = args.seed if args.seed is not None else int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = args.tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    check = load_check(args.property)
    code = with_shim(check)
    if code is not None:
        return code if code in (0, 1) else 2
    base = tempfile.mkdtemp(prefix="verif-%s-" % args.property)
    os.chmod(base, 0o755)
    try:
        if args.replay:
            path = os.path.abspath(args.replay)
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                code = 2
                try:
                    code = replay(check, path, base)
                except BaseException:
                    err = traceback.format_exc()
                    sys.__stderr__.write(err)
                finally:
                    os._exit(code)
            _, status = os.waitpid(pid, 0)
            if os.WIFSIGNALED(status) and os.WTERMSIG(status) != 9:
                print("the process was ended by signal %d" % os.WTERMSIG(status))
                return 1
            return os.WEXITSTATUS(status) if os.WIFEXITED(status) else 2
        check.prepare(base)
        return explore(check, seed, tier, args, base, t0)
    finally:
        os.chdir("/")
        subprocess.run(["chmod", "-R", "u+rwX", base], stderr=subprocess.DEVNULL)
        shutil.rmtree(base, ignore_errors=True)


def explore(check, seed, tier, args, base, t0):
    count = args.count or (check.quick if tier == "quick" else check.thorough)
    seconds = check.quick_s if tier == "quick" else check.thorough_s
    known = known_findings(check.id)
    known_lines = []
    for name, what, path in known:
        bad, _ = run_replay(check.id, path)
        if bad:
            known_lines.append("KNOWN-FINDING: property=%s %s (%s)" % (check.id, what, name))
    pids = {}
    died = {}
    sys.stdout.flush()
    for s in range(core.SHARDS):
        out = os.path.join(base, "out%d.json" % s)
        pid = os.fork()
        if pid == 0:
            try:
                core.shard_main(check, s, core.SHARDS, seed, count, seconds, os.path.join(base, "s%d" % s), out)
            finally:
                os._exit(0)
        pids[pid] = s
    limit = t0 + seconds + 240
    while pids and time.time() < limit:
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            time.sleep(0.02)
        else:
            s = pids.pop(pid, None)
            if s is not None and os.WIFSIGNALED(status) and os.WTERMSIG(status) != 9:
                died[s] = os.WTERMSIG(status)
    for pid in pids:
        os.kill(pid, 9)
        os.waitpid(pid, 0)
    results = []
    errors = []
    for s in range(core.SHARDS):
        out = os.path.join(base, "out%d.json" % s)
        if not os.path.exists(out):
            errors.append("shard %d died or was stopped" % s)
            continue
        with open(out) as f:
            text = f.read()
        if not text:
            errors.append("shard %d died or was stopped" % s)
            continue
        r = json.loads(text)
        results.append(r)
        if r["error"]:
            errors.append("shard %d: %s" % (s, r["error"]))
    distinct = set()
    labels = {}
    for r in results:
        distinct.update(r["nontrivial"])
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
    failures = [r["failure"] for r in results if r["failure"]]
    for s, sig in sorted(died.items()):
        try:
            with open(os.path.join(base, "s%d" % s, "current.json")) as f:
                case = json.load(f)
        except (OSError, ValueError):
            continue
        failures.append(dict(case=case, original=case, kind="signal", message="the process was ended by signal %d" % sig, history=[case]))
    confirmed = None
    unconfirmed = 0
    for f in failures[:4]:
        path, out = confirm(check.id, f, os.path.join(core.VERIF, "replays"))
        if path:
            confirmed = (path, out)
            break
        unconfirmed += 1
    samples = []
    for r in results:
        samples.extend(json.dumps(x)[:6000] for x in r["samples"][:1])
    evidence = dict(
        property=check.id,
        tier=tier,
        seed=seed,
        level=check.level,
        coverage=dict(
            evaluations=sum(r["evaluations"] for r in results),
            distinct_nontrivial=len(distinct),
            rule=check.rule,
            samples=samples[:3],
            labels=dict(sorted(labels.items())),
            rejected_by_generator=sum(r["skipped"] for r in results),
            stopped_by_time=any(r["capped"] for r in results),
            known_findings=known_lines,
        ),
        assumptions=check.assumptions,
        wall_s=round(time.time() - t0, 2),
        violations=1 if confirmed else 0,
    )
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(core.VERIF, "evidence", check.id + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for line in known_lines:
        print(line)
    print(
        "%s: %d cases, %d distinct non-trivial, %.1f s"
        % (check.id, evidence["coverage"]["evaluations"], len(distinct), evidence["wall_s"])
    )
    if confirmed:
        path, out = confirmed
        print(out[-6000:])
        print("VIOLATION property=%s replay=%s" % (check.id, path))
        return 1
    if errors or unconfirmed:
        for e in errors:
            print("ERROR", e, file=sys.stderr)
        if unconfirmed:
            print("ERROR: a failure could not be reproduced:", failures[0]["message"][:3000], file=sys.stderr)
        return 2
    return 0


def known_findings(pid):
    """Lines `known: property=<id> witness=<file> <what>` of known_findings.txt."""
    path = os.path.join(core.VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                parts = line.strip().split(" ", 3)
                if len(parts) == 4 and parts[0] == "known:" and parts[1] == "property=" + pid:
                    witness = parts[2].split("=", 1)[1]
                    out.append((os.path.basename(witness), parts[3], os.path.join(core.VERIF, witness)))
    return out


if __name__ == "__main__":
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
