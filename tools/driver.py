"""Runs the symbolic exploration for one property, replays what it finds on the real code, writes evidence."""
import json, os, random, re, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
import irbuild
from jobs import PROPS

VERIF = irbuild.VERIF
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known-findings.txt")


class Internal(Exception):
    pass


def known_findings(pid):
    out = []
    for line in open(KNOWN):
        m = re.match(r"finding:\s+(.*?)\s+--\s+(.*)$", line.strip())
        if m:
            f = dict(x.split("=", 1) for x in m.group(1).split())
            f["text"] = m.group(2)
            if f.get("property") == pid:
                out.append(f)
    return out

def native(binary, entry, arg, lines, timeout=30, stop_at_bad=False):
    """Outcomes of running the harness natively on each input line. A crash or hang is an outcome of its line."""
    res = []
    rest = list(lines)
    while rest:
        p = subprocess.Popen([binary, entry, str(arg)], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True,
                             preexec_fn=limits)
        try:
            _, err = p.communicate("\n".join(rest) + "\n", timeout=timeout)
            end = None if p.returncode == 0 else "crash %d" % p.returncode
        except subprocess.TimeoutExpired:
            p.kill()
            _, err = p.communicate()
            end = "hang"
        got = [l[3:] for l in err.split("\n") if l.startswith("@@ ")]
        got = got[:len(rest)]
        res += got
        rest = rest[len(got):]
        if end is None:
            if rest:
                raise Internal("replay gave too few answers")
            break
        if rest:
            res.append(end)
            rest = rest[1:]
    return res


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def bad(o):
    return o.split()[0] in ("fail", "panic", "crash", "hang")


def confirm(rb, entry, arg, inputs):
    """Does the real code fail on these inputs? Tries both builds, and many runs, since hash orders differ between runs."""
    line = ",".join(map(str, inputs)) or "0"
    for n in (1, 40, 600):
        for prof in ("checked", "wrapping"):
            for o in native(rb[prof], entry, arg, [line] * n, timeout=20 if n == 1 else 40):
                if bad(o):
                    return prof, o
    return None, None


def demangle(names):
    if not names:
        return []
    p = subprocess.run(["c++filt"], input="\n".join(names) + "\n", stdout=subprocess.PIPE, text=True)
    out = set()
    for l in p.stdout.split("\n"):
        l = re.sub(r"\[[0-9a-f]{8,}\]", "", l.strip())
        if l:
            out.add(l)
    return sorted(out)


def short_fn(l):
    """The crate's own function in a demangled name, without type arguments."""
    m = re.findall(r"henriks_parsing_project::[A-Za-z0-9_:]*", l)
    return m


def fn_list(encoded):
    out = set()
    for l in demangle(encoded):
        # methods: <henriks_parsing_project::a::B<..>>::f  /  functions: henriks_parsing_project::a::f::<..>
        m = re.match(r"^<?(henriks_parsing_project::[\w:]+)(<.*>)?( as [^>]*>?)?>?::(\w+)", l)
        if l.startswith("<henriks_parsing_project"):
            d = 0
            i = 0
            for i, c in enumerate(l):
                if c == "<":
                    d += 1
                elif c == ">" and l[i - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
            ty = re.match(r"<(henriks_parsing_project::[\w:]+)", l).group(1)
            me = re.match(r"::(\w+)", l[i + 1:])
            if me:
                out.add(ty.rstrip(":") + "::" + me.group(1))
        elif l.startswith("henriks_parsing_project::"):
            out.add(re.match(r"henriks_parsing_project::[\w:]+", l).group(0).rstrip(":"))
    return sorted(x.replace("henriks_parsing_project::", "") for x in out if "drop_in_place" not in x)


def cvc5_check(dumps, limit, secs):
    """Ask another solver about the dumped queries. Returns (agreed, undecided)."""
    picks = dumps[:limit]

    def one(d):
        q, sat = d
        try:
            p = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=%d" % (secs * 1000)], input="(set-logic QF_BV)\n" + q + "\n(check-sat)\n",
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=secs + 20)
            o = p.stdout
        except subprocess.TimeoutExpired:
            return None
        r = [l.strip() for l in o.split("\n") if l.strip() in ("sat", "unsat")]
        if "(error" in o or not r:
            return None
        if (r[0] == "sat") != sat:
            raise Internal("cvc5 disagrees with z3 on a query: " + q[-1500:])
        return True
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(one, picks))
    return sum(1 for x in rs if x), sum(1 for x in rs if not x)


def explore(eng, ll, jobs, budget, jobtime, qtimeout, dump_every, sample_every, grace):
    out = tempfile.NamedTemporaryFile(suffix=".json", delete=False).name
    cmd = [eng, "--ll", ll, "--time", str(budget), "--jobtime", str(jobtime), "--out", out, "--threads", str(os.cpu_count() or 8),
           "--qtimeout", str(qtimeout), "--dump-every", str(dump_every), "--dump-max", "6", "--sample-every", str(sample_every), "--sample-max", "60", "--grace", str(grace)]
    for e, a in jobs:
        cmd += ["--job", "%s:%d" % (e, a)]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=budget + 120)
    try:
        d = json.load(open(out))
    except Exception:
        raise Internal("the executor ended with %d: %s" % (p.returncode, p.stdout[-2000:]))
    finally:
        os.unlink(out)
    return d


def main(argv):
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    try:
        return run(pid, tier, seed)
    except Internal as e:
        print("INTERNAL ERROR: %s" % e)
        return 2


def run(pid, tier, seed):
    t0 = time.time()
    spec = PROPS[pid]
    os.makedirs(EVID, exist_ok=True)
    for f in os.listdir(EVID):
        if f.startswith(pid + "."):
            os.unlink(os.path.join(EVID, f))
    jobs = spec["jobs"](tier)  # list of (entry, arg, required covers)
    entries = sorted(set(j[0] for j in jobs))
    box = {}
    os.makedirs(irbuild.BUILD, exist_ok=True)
    irbuild.settle_parts(entries)

    def guard(k, f):
        try:
            box[k] = f()
        except BaseException as e:
            box[k] = e
    th = [threading.Thread(target=guard, args=x) for x in (("eng", irbuild.build_engine), ("ir", lambda: irbuild.build_ir(entries)))]
    for t in th:
        t.start()
    rt = threading.Thread(target=guard, args=("replay", irbuild.build_replay))
    rt.start()
    for t in th:
        t.join()
    for k in ("eng", "ir"):
        if isinstance(box[k], BaseException):
            raise Internal("build failed: %s" % box[k])
    build_s = time.time() - t0
    quick = tier == "quick"
    budget = int(os.environ.get("VERIF_BUDGET") or spec.get("budget", (300, 720))[0 if quick else 1])
    jobtime = budget / 3 if quick else budget
    known = known_findings(pid)

    def exploration(grace):
        return explore(box["eng"], box["ir"]["ll"], [(j[0], j[1]) for j in jobs], budget, jobtime, 20000 if quick else 120000, 211 if quick else 1009,
                       97 if quick else 997, grace)
    # a violation ends the exploration soon after it was found (but see below)
    grace = 0 if known else 40 if quick else 90
    d = exploration(grace)
    explore_s = time.time() - t0 - build_s
    rt.join()
    if isinstance(box["replay"], BaseException):
        raise Internal("build failed: %s" % box["replay"])
    rb = box["replay"]
    if grace and any(r.get("violations") for r in d["jobs"]) and not all(r.get("complete") for r in d["jobs"]) and quick:
        # cut short for something the real code does not confirm: explore everything
        if not any(confirm(rb, j[0], j[1], v["inputs"])[1] is not None for j, r in zip(jobs, d["jobs"]) for v in r.get("violations", [])):
            d = exploration(0)
    found, knownhit, unconfirmed, internal, stuck, cut = [], [], [], [], [], 0
    per_job = []
    tot = {k: 0 for k in ("paths", "killed", "steps", "forks", "checks", "checks_proved", "queries", "q_sat", "q_unsat", "q_unknown", "cached", "by_model")}
    solver_s = 0.0
    solver_max = 0.0
    complete_all = True
    samples = []
    dumps = []
    funcs = set()
    cov_missing = []
    confirmed_kinds = set()
    for j, r in zip(jobs, d["jobs"]):
        if r.get("missing"):
            raise Internal("harness %s is not in the module" % j[0])
        for k in tot:
            tot[k] += r[k]
        solver_s += r["solver_s"]
        solver_max = max(solver_max, r["solver_max_s"])
        funcs.update(r["functions"])
        for e in r["errors"]:
            # a path the executor could not finish: its witness is at least tried on the real code, and the run does not count as exhaustive
            complete_all = False
            cut += e["count"]
            stuck.append("%s:%d %s (x%d, inputs %s)" % (j[0], j[1], e["what"], e["count"], e["inputs"]))
            prof, o = confirm(rb, j[0], j[1], e["inputs"])
            if o is not None:
                found.append({"property": pid, "entry": j[0], "arg": j[1], "kind": "native", "code": 0, "loc": "", "inputs": e["inputs"], "build": prof, "outcome": o})
        if r["q_unknown"]:
            complete_all = False
        nviol = 0
        for v in r["violations"]:
            key = (j[0], j[1], v["kind"], v["code"], v["loc"])
            if key in confirmed_kinds:
                continue
            kf = [k for k in known if k.get("entry") == j[0] and int(k.get("arg", 0)) == j[1] and v["kind"] == k.get("kind", "check") and int(k.get("code", -1)) == v["code"]
                  and ("inputs" not in k or k["inputs"] == ",".join(map(str, v["inputs"])))]
            if len(found) >= 6 and not kf:
                continue
            prof, o = confirm(rb, j[0], j[1], v["inputs"])
            if o is None:
                unconfirmed.append((j[0], j[1], v))
                continue
            confirmed_kinds.add(key)
            if kf:
                knownhit.append((kf[0], o))
                continue
            nviol += 1
            found.append({"property": pid, "entry": j[0], "arg": j[1], "kind": v["kind"], "code": v["code"], "loc": v["loc"], "inputs": v["inputs"], "build": prof, "outcome": o})
        if not r["complete"]:
            complete_all = False
        elif r["errors"] and not r["paths"]:
            internal.append("nothing explored: " + stuck[-1])
        elif not found and not r["violations"]:
            miss = [c for c in j[2] if str(c) not in r["covers"]]
            if miss:
                cov_missing.append("%s:%d cover %s" % (j[0], j[1], miss))
        samples += [(j[0], j[1], s) for s in r["samples"]]
        dumps += [(q["q"], q["sat"]) for q in r["dumps"]]
        per_job.append({"harness": j[0], "arg": j[1], "bounds": spec["describe"](j[0], j[1] & (1 << 60) - 1 if j[1] >> 60 and j[0] not in ("h_c15", "h_c16", "h_c17", "h_c18") else j[1]) + ("; long parts %d times as long" % (1 << (j[1] >> 60)) if j[1] >> 60 else ""), "complete": r["complete"], "seconds": r["seconds"], "paths": r["paths"],
                        "assumed_away": r["killed"], "forks": r["forks"], "assertions": r["checks"], "assertions_proved": r["checks_proved"], "queries": r["queries"], "solver_s": r["solver_s"],
                        "unknown": r["q_unknown"], "longest_path_steps": r["max_steps_path"], "covers": r["covers"]})
    # the translation, tested on the paths themselves
    rnd = random.Random(seed)
    okay = [s for s in samples if s[2]["outcome"] == "ok"]
    rnd.shuffle(okay)
    okay = okay[:400 if quick else 4000]
    by = {}
    for e, a, s in okay:
        by.setdefault((e, a), []).append(s)
    validated = 0
    unstable = 0
    shown = []
    for (e, a), ss in by.items():
        lines = [",".join(map(str, s["inputs"])) or "0" for s in ss]
        outs = native(rb["checked"], e, a, lines, timeout=120)
        for s, l, o in zip(ss, lines, outs):
            want = "ok %s %d" % (s["log"], s["nlog"])
            if o == want:
                validated += 1
                if len(shown) < 6:
                    shown.append({"harness": e, "arg": a, "inputs": s["inputs"], "outcome": o})
                continue
            if bad(o):
                # the real code fails where the encoding did not: only possible with another hash order
                found.append({"property": pid, "entry": e, "arg": a, "kind": "native", "code": 0, "loc": "", "inputs": s["inputs"], "build": "checked", "outcome": o})
                continue
            more = set(native(rb["checked"], e, a, [l] * 200, timeout=120))
            b = [x for x in more if bad(x)]
            if b:
                found.append({"property": pid, "entry": e, "arg": a, "kind": "native", "code": 0, "loc": "", "inputs": s["inputs"], "build": "checked", "outcome": b[0]})
            elif want in more or len(more) > 1:
                unstable += 1
            else:
                internal.append("encoding and real code differ on %s:%d %s: %s / %s" % (e, a, s["inputs"], want, o))
    agreed, undecided = cvc5_check(dumps, 24 if quick else 64, 8 if quick else 10)
    # cut paths: a step or stack limit of the executor that the real code does not share
    for u in list(unconfirmed):
        if u[2]["kind"] in ("hang", "stack"):
            cut += 1
            complete_all = False
            unconfirmed.remove(u)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths"] + tot["killed"],
            "transitions": tot["forks"],
            "traces_validated_against_impl": validated,
            "samples": shown or [{"note": "no completed path was sampled"}],
            "exhaustive": bool(complete_all and not found),
            "explanation": "states = symbolic paths explored to their end (each stands for all inputs that satisfy its path condition), transitions = solver-decided forks; "
                           "every path of every job was explored and every assertion on it decided by the solver for all values" if complete_all else
                           "states = symbolic paths explored to their end; NOT all paths of the bounded space were explored (see jobs)",
            "bounds": spec["bounds"],
            "jobs": per_job,
            "functions_encoded": fn_list(box["ir"]["encoded"]),
            "functions_executed_after_inlining": len(funcs),
            "queries": tot["queries"], "queries_sat": tot["q_sat"], "queries_unsat": tot["q_unsat"], "queries_unknown": tot["q_unknown"],
            "answered_from_cache": tot["cached"], "answered_by_a_known_model": tot["by_model"],
            "assertions": tot["checks"], "assertions_proved_by_solver_or_folding": tot["checks_proved"],
            "instructions_executed": tot["steps"],
            "solver_s": round(solver_s, 2), "slowest_query_s": round(solver_max, 2), "solver": "z3 " + d.get("z3", ""),
            "queries_rechecked_with_cvc5": agreed, "cvc5_undecided": undecided,
            "paths_cut_at_a_limit": cut, "sampled_paths_unstable_natively": unstable,
            "build_s": round(build_s, 1), "explore_s": round(explore_s, 1), "ir_of_tree": box["ir"]["hash"],
        },
        "assumptions": ASSUME + spec.get("assume", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": len(found),
    }
    if unconfirmed:
        ev["coverage"]["unconfirmed"] = [{"entry": u[0], "arg": u[1], "violation": u[2]} for u in unconfirmed[:5]]
    if internal:
        ev["coverage"]["internal_errors"] = internal[:10]
    if stuck:
        ev["coverage"]["paths_the_executor_could_not_finish"] = stuck[:10]
    if cov_missing:
        ev["coverage"]["labels_not_reached"] = cov_missing
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    seen = set()
    for k, o in knownhit:
        if k["text"] not in seen:
            seen.add(k["text"])
            print("KNOWN-FINDING: property=%s %s" % (pid, k["text"]))
    if found:
        for i, v in enumerate(found[:6]):
            path = os.path.join(EVID, "%s.violation-%d.json" % (pid, i + 1))
            v["rerun"] = "python3 /verif/tools/replay.py " + path
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  %s:%d %s code=%s %s -> real code (%s build): %s" % (v["entry"], v["arg"], v["kind"], v["code"], v["loc"], v["build"], v["outcome"]))
        return 1
    if internal or unconfirmed or cov_missing:
        for x in internal[:5]:
            print("INTERNAL ERROR: " + x)
        for u in unconfirmed[:5]:
            print("INTERNAL ERROR: not reproduced on the real code: %s:%d %s" % u)
        for x in cov_missing[:5]:
            print("INTERNAL ERROR: vacuous: " + x)
        return 2
    print("%s %s: held on all %d paths (%d assertions, %d queries, solver %.1fs, %s) in %.1fs" % (
        pid, tier, tot["paths"], tot["checks"], tot["queries"], solver_s, "exhaustive within the bounds" if complete_all else "NOT exhaustive", time.time() - t0))
    return 0


ASSUME = [
    "LLVM IR of the release profile with overflow checks, before and after the standard O2 pipeline, is what is executed; rustc and LLVM are trusted to translate the source",
    "the executor's IR semantics (checked on sampled paths against the real code built natively, with and without overflow checks)",
    "z3's verdicts (a sample of the queries is decided again by cvc5)",
    "hash values of the standard tables are modelled: iteration orders are insertion order and, where said, chosen permutations",
    "memory is never exhausted; panic messages and output formatting are not executed",
]
