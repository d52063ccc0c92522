"""Decide one property: run its harnesses in the symbolic engine, replay what
the engine reports against the real code, write the evidence file."""
import sys, os, json, time, tempfile, shutil, re, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pipeline import *
import registry, gen

KNOWN = os.path.join(VERIF, "known-findings.txt")
ALWAYS_SAMPLE = 48

def load_known():
    """Lines `finding: property=<id> job=<job> match=<regex> :: <text>`; lines starting `fixed:` suppress nothing."""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) job=(\S+) match=(\S+) :: (.*)", l)
            if m:
                out.append(dict(prop=m[1], job=m[2], rx=re.compile(m[3]), text=m[4].strip()))
    return out

def describe(e):
    return "%s|%s|%s" % (e["kind"], e["func"], e["msg"].replace(" ", "_"))

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    for a in sys.argv[2:]:
        if a.startswith("--tier="): tier = a[7:]
    only = [a[7:] for a in sys.argv[2:] if a.startswith("--only=")]
    verbose = "-v" in sys.argv
    seed = int(os.environ.get("VERIF_SEED") or "1")
    t0 = time.time()
    P = registry.PROPS[pid]
    build_engine()
    work = tempfile.mkdtemp(prefix="pbv-%s-" % pid)
    keep = os.path.join(VERIF, "build", "replay")
    os.makedirs(keep, exist_ok=True)
    agg = dict(paths=0, steps=0, forks=0, dead_paths=0, z3_queries=0, z3_sat=0, z3_unsat=0, z3_time=0.0, byte_domain_decisions=0,
               crosschecked=0, checks_symbolic=0, checks_path_constant=0, query_cache_hits=0, model_hits=0)
    funcs = {}; jobs_ev = []; samples_ev = []; traces = 0; violations = []; known_hit = []; trouble = []
    known = [k for k in load_known() if k["prop"] == pid]
    made = None
    try:
        R = RepoBuild(work)
        for J in P["jobs"]:
            if only and J["name"] not in only: continue
            defs = dict(J.get("defs", {}))
            if tier == "thorough": defs.update(J.get("thorough", {}))
            elif J.get("thorough_only"): continue
            ndebug = J.get("ndebug", True)
            dl = ["-D%s=%s" % (k, v) for k, v in sorted(defs.items())]
            src = [os.path.join(HARN, s) for s in J["src"]] + [os.path.join(HARN, "schema.c")]
            if J.get("generated"):
                if not made: made = gen.prepare(work)
                src += made[0]; dl += ["-I" + i for i in made[1]]
            bc = R.bc(J["name"], src, dl, ndebug)
            opts = ["--seed=%d" % seed, "--samples=%d" % ALWAYS_SAMPLE] + list(J.get("opts", []))
            if tier == "thorough" or os.environ.get("PB_CROSS"): opts.append("--cross")
            budget = J.get("budget", 240 if tier == "quick" and not os.environ.get("PB_CROSS") else 3000)
            out = os.path.join(work, J["name"] + ".json")
            r = run_engine(bc, out, timeout=budget, opts=opts)
            for k in agg: agg[k] += r[k]
            for f in r["functions"]:
                g = funcs.setdefault(f["name"], [0, f["blocks"]]); g[0] = max(g[0], f["covered"])
            jobs_ev.append(dict(job=J["name"], bounds=J.get("bounds", ""), defines=defs, paths=r["paths"], max_input_bytes=r["max_symbols"],
                                max_path_instructions=r["max_path_steps"], seconds=round(r["wall"], 2), incomplete=r["incomplete"], reached=r["reach"], errors=len(r["errors"])))
            if verbose:
                print("  job %-18s paths %d dead %d steps %d z3 %d (%.1fs) checks %d+%d syms %d maxsteps %d wall %.1fs reach %s %s" % (J["name"], r["paths"], r["dead_paths"], r["steps"], r["z3_queries"], r["z3_time"], r["checks_symbolic"], r["checks_path_constant"], r["max_symbols"], r["max_path_steps"], r["wall"], r["reach"], r["incomplete"]), flush=True)
            if r["incomplete"]: trouble.append("%s: exploration incomplete: %s" % (J["name"], r["incomplete"]))
            # replay errors against the real code
            job_bad = False
            for e in r["errors"]:
                fp = describe(e)
                if verbose: print("   ", fp, "line", e["line"], e["input"], e["trace"][:8])
                how = None
                sans = ["asan", "msan"] if e["kind"] != "uninit" else ["msan", "asan"]
                for s in sans:
                    v = replay(R.native(J["name"], src, dl, s, ndebug), [e["input"]], work)[0]
                    if v[0] in ("CHECK", "CRASH", "TIMEOUT"): how = (s, v); break
                if not how:
                    trouble.append("%s: engine reports %s (line %d, input %s) but the real code does not show it: %s" % (J["name"], fp, e["line"], e["input"], v))
                    continue
                k = next((k for k in known if k["job"] in (J["name"], "*") and k["rx"].fullmatch(fp)), None)
                if k:
                    if k not in known_hit: known_hit.append(k)
                    job_bad = True
                    continue
                job_bad = True
                path = os.path.join(keep, "%s-%s-%s.json" % (pid, J["name"], hashlib.sha1(fp.encode()).hexdigest()[:8]))
                json.dump(dict(property=pid, job=J["name"], harness=J["src"], defines=defs, what=fp, line=e["line"], trace=e["trace"], input=e["input"],
                               native=dict(sanitizer=how[0], verdict=how[1][0], text=how[1][2]), smt=e["smt"][:20000]), open(path, "w"), indent=1)
                violations.append((fp, path, how, e, J["name"]))
            # translation check: sampled paths must behave the same in the real code
            if r["samples"]:
                nat = R.native(J["name"], src, dl, "asan", ndebug)
                sm = r["samples"]
                res = replay(nat, [s["input"] for s in sm], work)
                bad = [(s, v) for s, v in zip(sm, res) if v[0] != "OK" or v[1] != s["hash"]]
                traces += len(sm) - len(bad)
                if bad and not job_bad:
                    trouble.append("%s: %d of %d sampled paths differ natively, e.g. %s" % (J["name"], len(bad), len(sm), bad[0]))
                samples_ev += [dict(job=J["name"], input=s["input"], observed=s["hash"]) for s in sm[:3]]
            need = J.get("reach", [])
            if not r["incomplete"] and not set(need) <= set(r["reach"]) and not r["errors"]:
                trouble.append("%s: vacuous: witnesses %s not reached" % (J["name"], sorted(set(need) - set(r["reach"]))))
    except gen.Broken as e:
        path = os.path.join(keep, "%s-generated.json" % pid)
        json.dump(dict(property=pid, what="generated code", text=str(e), reproduce="run the generator on harness/gen/*.proto and compile what it writes"), open(path, "w"), indent=1)
        violations.append(("generated code", path, ("compiler", str(e)), dict(line=0, input="-"), "prepare"))
    except BuildError as e:
        trouble.append("build or engine problem: %s" % e)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    for k in known_hit:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["text"]))
    for t in trouble:
        print("TROUBLE property=%s %s" % (pid, t), file=sys.stderr)
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - t0, 2), violations=len(violations),
              assumptions=registry.ASSUME + P.get("assume", []),
              coverage=dict(states=agg["paths"], transitions=agg["steps"], traces_validated_against_impl=traces, samples=samples_ev or [dict(note="none")],
                            rule="states: execution paths of the compiled code explored to their end, each standing for all inputs that satisfy its path condition; transitions: LLVM instructions executed symbolically",
                            queries=dict(z3=agg["z3_queries"], sat=agg["z3_sat"], unsat=agg["z3_unsat"], seconds=round(agg["z3_time"], 3), answered_by_byte_domain=agg["byte_domain_decisions"],
                                         cross_checked_with_z3=agg["crosschecked"], answered_by_cached_model=agg["model_hits"], answered_by_query_cache=agg["query_cache_hits"]),
                            assertions=dict(decided_by_solver=agg["checks_symbolic"], already_constant_on_their_path=agg["checks_path_constant"]),
                            forks=agg["forks"], infeasible_paths=agg["dead_paths"],
                            functions_encoded=[dict(name=n, blocks=b, covered=c) for n, (c, b) in sorted(funcs.items())],
                            jobs=jobs_ev, known_findings=[k["text"] for k in known_hit], trouble=trouble))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    if violations:
        for fp, path, how, e, j in violations:
            print("  %s in job %s, line %d: %s -> %s (%s)" % (fp, j, e["line"], e["input"], how[1], how[0]))
        print("VIOLATION property=%s replay=%s" % (pid, violations[0][1]))
        return 1
    if trouble: return 2
    print("OK property=%s tier=%s paths=%d queries=%d traces=%d %.1fs" % (pid, tier, agg["paths"], agg["z3_queries"], traces, time.time() - t0))
    return 0

if __name__ == "__main__":
    sys.exit(main())
