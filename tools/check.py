#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decide one property
   check.py replay FILE                 run one recorded case again"""
import sys, os, json, random, time, shutil, traceback
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from vlib import *
from props import PROPS, DOMAINS


def known_findings(pid):
    out = {}
    p = os.path.join(V, "known_findings.txt")
    for l in open(p):
        l = l.strip()
        if l.startswith("finding: property=%s " % pid):
            rest = l.split("id=", 1)[1]
            fid, text = rest.split(" ", 1)
            out[fid] = text
    return out


def main():
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    pid = sys.argv[1]
    tier = (sys.argv[2:] or [os.environ.get("VERIF_TIER") or "quick"])[0]
    os.environ["VERIF_TIER"] = tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    P = PROPS[pid]
    work = os.path.join(V, "work", pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    rdir = os.path.join(V, "replay", pid)
    shutil.rmtree(rdir, ignore_errors=True)
    rng = random.Random("%d-%s" % (seed, pid))
    findings = known_findings(pid)
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "models": {}, "domains": {}}
    violations, known_hits = [], {}
    build_java()
    with ThreadPoolExecutor(8) as ex:
        fbuild = ex.submit(build_harness)
        fmc = [(cfg[:-4] if cfg else m, ex.submit(model_check, m, work, 4, 800, os.path.join(SPEC, cfg) if cfg else None)) for m, cfg in
               [(x if isinstance(x, tuple) else (x, None)) for x in P.get("mc", [])] +
               [(x if isinstance(x, tuple) else (x, None)) for x in (P.get("mc_thorough", []) if tier == "thorough" else [])]]
        fgen = [(m, ex.submit(tla_cases, m, work)) for m in P.get("tla_gen", [])]
        cases, for_custom = [], []
        for g in P.get("gen", []):
            cases += list(g(rng, tier))
        for m, f in fgen:
            cs, t = f.result()
            cov["models"][m] = {"behaviours": len(cs), "states": t.distinct}
            cov["states"] += t.distinct
            cov["transitions"] += t.generated
            if m in P.get("to_custom", ()):
                for_custom += cs
                continue
            cases += [P["convert"](c, rng) for c in cs] if m in P.get("converted", ()) else cs
        for m, f in fmc:
            t = f.result()
            cov["models"][m] = {"states": t.distinct, "transitions": t.generated, "wall_s": round(t.wall, 1)}
            cov["states"] += t.distinct
            cov["transitions"] += t.generated
        binary = fbuild.result()
    extra = {}
    if P.get("custom"):
        # programs to be compiled etc.: adds events that were recorded elsewhere
        extra = P["custom"](rng, tier, work, binary, for_custom) or {}
    bydom = {}
    for c in cases:
        bydom.setdefault(c["dom"], []).append(c)
    paths = {}
    for dom, cs in bydom.items():
        paths[dom] = run_harness(binary, cs, work, dom)
    for dom, evs in extra.items():
        p = os.path.join(work, dom + ".events.ndjson")
        with open(p, "a") as f:
            for e in evs:
                f.write(json.dumps(e, separators=(",", ":")) + "\n")
        paths[dom] = p
    for dom, p in paths.items():
        verdicts, st, tr, lines = judge(DOMAINS[dom], p, work)
        cov["states"] += st
        cov["transitions"] += tr
        cov["traces_validated_against_impl"] += len(lines)
        ops = {}
        for l in lines:
            e = json.loads(l)
            ops[e.get("op", "session")] = ops.get(e.get("op", "session"), 0) + 1
        cov["domains"][dom] = {"lines": len(lines), "by_operation": ops,
                               "accepted": len(lines) - len(verdicts)}
        for k in (0, len(lines) // 2, len(lines) - 1):
            if lines and len(lines[k]) < 3000:
                cov["samples"].append(json.loads(lines[k]))
        for k, v in sorted(verdicts.items()):
            if v in findings:
                known_hits.setdefault(v, []).append(k)
            else:
                violations.append((dom, k, v, lines[k]))
    cov["known_findings_seen"] = {k: len(v) for k, v in known_hits.items()}
    if cov["traces_validated_against_impl"] == 0:
        raise ToolError("nothing was explored")
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": P.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(violations)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for fid, text in findings.items():
        print("KNOWN-FINDING: property=%s id=%s %s (seen in %d cases of this run)" % (pid, fid, text, len(known_hits.get(fid, []))))
    print("%s %s: %d states, %d transitions, %d recorded behaviours judged, %.1fs" % (
        pid, tier, cov["states"], cov["transitions"], cov["traces_validated_against_impl"], time.time() - t0))
    if violations:
        os.makedirs(rdir)
        for n, (dom, k, v, line) in enumerate(violations[:20]):
            rp = os.path.join(rdir, "%d.json" % n)
            with open(rp, "w") as f:
                f.write(line)
            if n < 5:
                print("VIOLATION property=%s replay=%s" % (pid, rp))
                print("  %s line %d verdict %s: %s" % (dom, k, v, line[:700]))
        print("%d violating behaviours" % len(violations))
        return 1
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(work, ignore_errors=True)
    return 0


def replay(path):
    e = json.loads(open(path).read())
    work = os.path.join(V, "work", "replay")
    os.makedirs(work, exist_ok=True)
    build_java()
    out = e.pop("out", None)
    if e["dom"] == "macro":
        import gen_macro
        build_harness()
        p = os.path.join(work, "macro.events.ndjson")
        with open(p, "w") as f:
            f.write(json.dumps(gen_macro.replay(e, work)) + "\n")
    elif e["dom"] == "spend":
        import gen_spend
        p = os.path.join(work, "spend.events.ndjson")
        with open(p, "w") as f:
            f.write(json.dumps(gen_spend.replay(e, work)) + "\n")
    elif "src" in e and e["dom"] == "wire":
        import gen_derive
        build_harness()
        p = os.path.join(work, "wire.events.ndjson")
        with open(p, "w") as f:
            f.write(json.dumps(gen_derive.replay(e, work)) + "\n")
    else:
        p = run_harness(build_harness("rust_ecc", "rust") if e.get("be") == "rust" else build_harness(), [e], work, e["dom"])
    verdicts, _, _, lines = judge(DOMAINS[e["dom"]], p, work)
    print(lines[0])
    print("verdict:", verdicts.get(0, "ok"))
    return 1 if verdicts else 0


if __name__ == "__main__":
    try:
        rc = main()
    except ToolError as x:
        print("ERROR:", x)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
