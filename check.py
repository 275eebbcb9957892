#!/usr/bin/env python3
"""Decides one property: encodes /repo's current sources, runs the symbolic executor, replays counterexamples natively.

usage: check.py <property> [--tier quick|thorough] [--only HARNESS] [--keep] [-v]
"""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, VERIF)
import harnesses as HS

BUILD = os.path.join(VERIF, "build")
VSYM = os.path.join(BUILD, "vsym")
CLANGXX, CLANG, LINK, GXX = "/usr/bin/clang++-18", "/usr/bin/clang-18", "/usr/bin/llvm-link-18", "/usr/bin/g++"
IRFLAGS = "-O1 -mllvm -phi-node-folding-threshold=40 -mllvm -two-entry-phi-node-folding-threshold=40 -mllvm -bonus-inst-threshold=10 -gline-tables-only -fno-vectorize -fno-slp-vectorize -w -emit-llvm -c".split()
# the library's configurations (the harnesses' include directory boost_asio maps <asio/...> to <boost/asio/...>)
CONFIGS = {"standalone": "-DASIO_STANDALONE -DASIOEXT_STANDALONE", "asio": "-DBOOST_ALL_NO_LIB", "boost": "-DBOOST_ALL_NO_LIB -DASIOEXT_USE_BOOST_ASIO -I%s/rt/boost_asio" % VERIF}
CONFIGS["header"] = CONFIGS["standalone"] + " -DASIOEXT_HEADER_ONLY"
CONFIGS = {k: (v + ("" if k == "header" else " -DASIOEXT_SEPARATE_COMPILATION") + " -pthread").split() for k, v in CONFIGS.items()}
INC = ["-I" + REPO + "/include", "-I" + VERIF + "/rt", "-I" + VERIF + "/harness"]
CORES = 8
QUICK_S = 750  # a quick check answers within this time


class CheckError(Exception):
    pass


def run(cmd, timeout=600, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)
    return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")


def must(cmd, what, timeout=600):
    rc, o, e = run(cmd, timeout)
    if rc:
        raise CheckError("%s failed (%d): %s\n%s" % (what, rc, " ".join(cmd)[:400], (e or o)[:3000]))
    return o


class Tokens:
    """A counting semaphore whose acquire takes several tokens at once."""
    def __init__(self, n):
        self.n, self.c = n, threading.Condition()

    def take(self, k):
        with self.c:
            while self.n < k:
                self.c.wait()
            self.n -= k

    def give(self, k):
        with self.c:
            self.n += k
            self.c.notify_all()


class Runner:
    def __init__(self, prop, tier, only, verbose):
        self.prop, self.tier, self.only, self.v = prop, tier, only, verbose
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tmp = tempfile.mkdtemp(prefix="vp_%s_" % prop)
        self.t0, self.stop = time.time(), self.tmp + "/stop"
        self.known = HS.load_known(prop)
        self.hurry = not self.known
        self.tok = Tokens(CORES)
        self.lock = threading.Lock()
        self.libs = {}
        self.futs = {}
        self.races_confirmed = 0

    # ---- building ------------------------------------------------------------------------------------------------
    def engine(self):
        srcs = [os.path.join(VERIF, "engine", f) for f in os.listdir(os.path.join(VERIF, "engine"))]
        if not os.path.exists(VSYM) or any(os.path.getmtime(s) > os.path.getmtime(VSYM) for s in srcs):
            must(["bash", os.path.join(VERIF, "engine", "build.sh"), BUILD], "building the engine")

    def cxx(self, extra, config="standalone"):
        return [CLANGXX, "-std=c++20"] + IRFLAGS + ["-D_GLIBCXX_EXTERN_TEMPLATE=0"] + INC + CONFIGS[config] + extra

    def build_rt(self):
        a, b = self.tmp + "/rt1.bc", self.tmp + "/rt2.bc"
        must(self.cxx([VERIF + "/rt/runtime.cpp", "-o", a]), "runtime")
        must([CLANG] + IRFLAGS + ["-ffreestanding", "-fno-builtin", VERIF + "/rt/libc.c", "-o", b], "libc")
        must([LINK, a, b, "-o", self.tmp + "/rt.bc"], "linking the runtime")

    def lib_src(self, config):
        return VERIF + "/rt/tu2.cpp" if config == "header" else REPO + "/src/asioext.cpp"

    def build_lib(self, key, defs, config):
        must(self.cxx(defs + [self.lib_src(config), "-o", "%s/lib_%s.bc" % (self.tmp, key)], config), "encoding src/asioext.cpp")

    def nat_flags(self, config="standalone", san="address"):
        return ["-std=c++20", "-O1", "-g1", "-w", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE"] + INC + CONFIGS[config] + {
            "address": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr,nonnull-attribute"],
            "thread": ["-fsanitize=thread"]}[san]

    def build_natlib(self, key, defs, config, san="address"):
        must([GXX] + self.nat_flags(config, san) + defs + ["-c", self.lib_src(config), "-o", "%s/natlib_%s_%s.o" % (self.tmp, san, key)], "native library")

    def build_natrt(self):
        must([GXX] + self.nat_flags() + ["-c", VERIF + "/rt/native.cpp", "-o", self.tmp + "/natrt_address.o"], "native replay runtime")
        if any(h["native"] in ("sched", "tsan") for h in HS.PROPS[self.prop]["harnesses"]):  # the scheduler itself is not instrumented
            must([GXX] + self.nat_flags()[:6] + INC + ["-DVP_TSAN", "-c", VERIF + "/rt/native.cpp", "-o", self.tmp + "/natrt_thread.o"], "native replay runtime")

    def libkey(self, h):
        return "_".join([h["config"]] + [re.sub(r"\W", "", d) for d in h["libdefs"]])

    # ---- one harness ---------------------------------------------------------------------------------------------
    def harness(self, h):
        t0 = time.time()
        d = os.path.join(self.tmp, h["name"])
        os.mkdir(d)
        src = os.path.join(VERIF, "harness", h["src"])
        defs = ["-D%s=%s" % kv if kv[1] is not None else "-D" + kv[0] for kv in h["defs"].items()] + h["libdefs"]
        hb, l0, l1 = d + "/h.bc", d + "/l0.bc", d + "/l.bc"
        self.tok.take(1)
        try:
            must(self.cxx(defs + ["-include", VERIF + "/rt/prelude.h", src, "-o", hb], h["config"]), "encoding harness " + h["name"])
            self.futs["rt"].result()
            self.futs["lib_" + self.libkey(h)].result()
            must([LINK, hb, "%s/lib_%s.bc" % (self.tmp, self.libkey(h)), "-o", l0], "linking")
            must([LINK, "--only-needed", l0, self.tmp + "/rt.bc", "-o", l1], "linking")
        finally:
            self.tok.give(1)
        t1 = time.time()
        jobs = h["jobs"]
        self.tok.take(jobs)
        try:
            if os.path.exists(self.stop):
                return None
            out = d + "/out.json"
            limit = h["max_time"]
            if self.tier == "quick":
                limit = max(30, min(limit, QUICK_S - (time.time() - self.t0)))
            cmd = [VSYM, l1, "--entry", "vp_main", "--out", out, "--max-time", str(limit), "--stop", self.stop] + ([] if self.hurry else ["--no-hurry"]) + [ "--jobs", str(jobs), "--max-steps", str(h["max_steps"]),
                   "--seed", str(self.seed), "--samples", str(h["samples"]), "--max-viol", "8", "--preempt", str(h["preempt"]), "--src", REPO + "/",
                   "--depth", str(h["depth"]), "--split", str(1 if jobs == 1 else 64)] + (["--races"] if h["races"] else []) + (["--atomics"] if h["atomics"] else []) + (["--sched"] if h["native"] in ("sched", "tsan") else [])
            rc, o, e = run(cmd, timeout=limit + 120)
        finally:
            self.tok.give(jobs)
        if rc:
            raise CheckError("engine failed on %s (%d): %s" % (h["name"], rc, (e or o)[-2000:]))
        with open(out) as f:
            parts = json.load(f)
        r = self.merge(parts)
        r["compile_s"], r["wall_s"] = t1 - t0, time.time() - t1
        r["dir"], r["h"], r["defs"] = d, h, defs
        if self.v:
            print("[%s] %.1fs+%.1fs paths=%d instr=%d queries=%d viol=%s problems=%s" % (h["name"], r["compile_s"], r["wall_s"], r["paths"], r["instructions"], r["solver"]["queries"], [v["id"] for v in r["violations"]], r["problems"]), flush=True)
        return r

    @staticmethod
    def merge(parts):
        r = {k: sum(p[k] for p in parts) for k in ("paths", "assumed_out", "instructions", "forks", "symbolic_branches", "checks", "symbolic_checks")}
        r["max_inputs"] = max(p["max_inputs"] for p in parts)
        r["solver"] = {k: sum(p["solver"][k] for p in parts) for k in parts[0]["solver"]}
        r["problems"] = sorted({x for p in parts for x in p["problems"]})
        if any(p["timed_out"] for p in parts) and not r["problems"]:
            r["problems"].append("time limit")
        r["covers"], r["check_ids"], lines, fns, vs = {}, {}, {}, set(), {}
        for p in parts:
            for k in ("covers", "check_ids"):
                for a, b in p[k].items():
                    r[k][a] = r[k].get(a, 0) + b
            for f, l in p["lines"].items():
                lines.setdefault(f, set()).update(l)
            fns.update(p["functions"])
            for v in p["violations"]:
                vs.setdefault((v["kind"], v["id"], v["where"] if v["kind"] != "check" else ""), v)
        r["lines"] = {f: sorted(l) for f, l in sorted(lines.items())}
        r["functions"], r["violations"] = sorted(fns), list(vs.values())
        r["samples"] = [s for p in parts for s in p["samples"]]
        return r

    # ---- replay against the real build ---------------------------------------------------------------------------
    def native(self, h, san=None):
        """Compiles the same harness against the real sources with the sanitizers (no symbolic engine)."""
        san = san or ("thread" if h["native"] == "tsan" else "address")
        d = os.path.join(self.tmp, h["name"] + "_nat_" + san)
        if os.path.exists(d + "/replay"):
            return d + "/replay"
        os.makedirs(d, exist_ok=True)
        src = os.path.join(VERIF, "harness", h["src"])
        defs = ["-D%s=%s" % kv if kv[1] is not None else "-D" + kv[0] for kv in h["defs"].items()] + h["libdefs"]
        exe = d + "/replay"
        self.tok.take(1)
        try:
            self.futs["natrt"].result()
            if san == "thread":
                self.build_natlib(h["name"] + self.libkey(h), h["libdefs"], h["config"], san)
            else:
                self.futs["natlib_" + self.libkey(h)].result()
            obj = d + "/h.o"
            lib = "%s/natlib_%s_%s.o" % (self.tmp, san, (h["name"] if san == "thread" else "") + self.libkey(h))
            must([GXX] + self.nat_flags(h["config"], san) + defs + ["-include", VERIF + "/rt/prelude.h", "-c", src, "-o", obj], "native harness " + h["name"])
            # library functions the harness models (vpsys_X) replace X in the replay, too
            nm = must(["/usr/bin/nm", "-P", "--defined-only", obj], "nm")
            wrap = []
            for line in nm.splitlines():
                s = line.split()[0]
                if s.startswith("vpsys_"):
                    x = s[len("vpsys_"):]
                    wrap += ["-Wl,--wrap=" + x, "-Wl,--defsym=__wrap_%s=%s" % (x, s)]
            if h["native"] in ("sched", "tsan"):  # thread operations follow the recorded schedule
                wrap += ["-Wl,--wrap=pthread_" + x for x in ("mutex_lock", "mutex_trylock", "mutex_unlock", "cond_wait", "cond_timedwait", "cond_signal", "cond_broadcast", "create", "join")]
                if h["atomics"]:
                    und = must(["/usr/bin/nm", "-P", "--undefined-only", obj, lib], "nm")
                    wrap += sorted({"-Wl,--wrap=" + x for x in re.findall(r"^(__tsan_atomic\w+) U", und, re.M) if not x.endswith("_fence")})
            must([GXX] + self.nat_flags(h["config"], san) + [obj, lib, "%s/natrt_%s.o" % (self.tmp, san)] + wrap + (["-lboost_filesystem"] if h["config"] in ("asio", "boost") else []) + ["-o", exe], "native link " + h["name"])
        finally:
            self.tok.give(1)
        return exe

    def replay(self, exe, inputs, fill=None):
        d = tempfile.mkdtemp(dir=self.tmp)
        with open(d + "/in", "w") as f:
            f.write("\n".join(str(x) for x in inputs) + "\n")
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=44:allocator_may_return_null=1:detect_stack_use_after_return=0" + (":max_malloc_fill_size=100000:malloc_fill_byte=%d" % fill if fill is not None else "")
        env["UBSAN_OPTIONS"] = "print_stacktrace=0:exitcode=45"
        env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:report_thread_leaks=0:report_destroy_locked=0"
        try:
            rc, o, e = run([exe, d + "/in", d + "/obs"], timeout=60, cwd=d, env=env)
        except subprocess.TimeoutExpired:
            rc, o, e = 46, "", "timeout"
        obs = []
        if os.path.exists(d + "/obs"):
            with open(d + "/obs") as f:
                obs = [int(x) for x in f.read().split()]
        shutil.rmtree(d, ignore_errors=True)
        return rc, (o + e).strip(), obs

    def confirm(self, h, v, exe):
        if h["native"] in ("sched", "tsan"):
            # a data race needs ThreadSanitizer to be seen; the recorded schedule and happens-before relation decide in any case
            log = "the recorded schedule could not be replayed"
            try:
                if v["kind"] == "race" and self.races_confirmed >= 2:
                    return True, "like the others: the schedule and the happens-before relation are the executor's"
                if v["kind"] == "race" and h["native"] == "sched":
                    exe = self.native(h, "thread")
                rc, txt, _ = self.replay(exe, v["inputs"])
                self.races_confirmed += v["kind"] == "race"
                log = "%s under the recorded schedule: exit %d\n%s" % ("reproduced" if rc not in (0, 77) else "not observable", rc, txt)
            except (CheckError, subprocess.TimeoutExpired) as e:
                log += ": %s" % e
            return True, log
        for fill in ([None] if not v["uninit"] else [None, 0xff, 0x00, 0x41]):
            rc, txt, _ = self.replay(exe, v["inputs"], fill)
            log = "exit %d\n%s" % (rc, txt)
            if rc not in (0, 77):
                return True, log
        return False, log

    # ---- whole property ------------------------------------------------------------------------------------------
    def main(self):
        t0 = time.time()
        spec = HS.PROPS[self.prop]
        hs = [HS.finish(h, self.tier) for h in spec["harnesses"] if self.tier == "thorough" or not h["thorough_only"]]
        if self.only:
            hs = [h for h in hs if h["name"] in self.only.split(",")]
        if self.config:
            hs = [dict(h, config=self.config) for h in hs]
        self.engine()
        problems, results, viols, exes = [], [], [], {}
        with ThreadPoolExecutor(64) as ex:
            def tok1(f, *a):
                self.tok.take(1)
                try:
                    return f(*a)
                finally:
                    self.tok.give(1)
            self.futs["rt"] = ex.submit(self.build_rt)
            for h in hs:
                k = self.libkey(h)
                if "lib_" + k not in self.futs:
                    self.futs["lib_" + k] = ex.submit(self.build_lib, k, h["libdefs"], h["config"])
                    self.futs["natlib_" + k] = ex.submit(self.build_natlib, k, h["libdefs"], h["config"])
            self.futs["natrt"] = ex.submit(self.build_natrt)
            hf = {h["name"]: ex.submit(self.harness, h) for h in sorted(hs, key=lambda h: -h["jobs"])}
            nf = {h["name"]: ex.submit(self.native, h) for h in hs if h["native"]}
            # counterexamples are confirmed natively as soon as a harness is done; the first confirmed one stops the others
            def confirm(h):
                r = hf[h["name"]].result()
                if not r or not r["violations"]:
                    return
                exe = nf[h["name"]].result() if h["native"] else None
                for v in r["violations"]:
                    v["confirmed"] = self.confirm(h, v, exe)
                    if v["confirmed"][0] and HS.match_known(self.known, h, v) is None:
                        open(self.stop, "w").close()
            cf = [ex.submit(confirm, h) for h in hs]
            for f in cf:
                try:
                    f.result()
                except (CheckError, subprocess.TimeoutExpired):
                    pass
            for h in hs:
                try:
                    r = hf[h["name"]].result()
                    if r:
                        results.append(r)
                except (CheckError, subprocess.TimeoutExpired) as e:
                    problems.append("%s: %s" % (h["name"], e))
            for h in hs:
                if h["native"]:
                    try:
                        exes[h["name"]] = nf[h["name"]].result()
                    except (CheckError, subprocess.TimeoutExpired) as e:
                        u = re.search(r"undefined reference to `(asioext::[^']*)'", str(e))
                        r = [r for r in results if r["h"] is h]
                        if u and r:  # a public function that this configuration declares but does not define
                            r[0]["violations"].append({"id": "the library defines " + u.group(1), "where": "the linker", "inputs": [], "kind": "link", "uninit": False, "confirmed": (True, str(e)[-3000:])})
                            r[0]["problems"] = [p for p in r[0]["problems"] if "unmodelled external function asioext::" not in p]
                        else:
                            problems.append("%s: %s" % (h["name"], e))
            # validation: the models of completed paths, executed by the real build
            validated, jobs = 0, []
            for r in results:
                exe = exes.get(r["h"]["name"])
                if exe:
                    for s in r["samples"][:r["h"]["samples"] * 2]:
                        jobs.append((r, s, ex.submit(self.replay, exe, s["inputs"])))
            mism, diverged = [], []
            for r, s, f in jobs:
                rc, txt, obs = f.result()
                if rc == 0 and obs == s["obs"]:
                    validated += 1
                elif r["h"]["native"] in ("sched", "tsan") and rc in (46, 77):
                    diverged.append("%s: exit %d: %s" % (r["h"]["name"], rc, txt[-200:]))  # e.g. an atomic operation more or less
                else:
                    mism.append("%s: native run of a passing path disagrees (exit %d, obs %s vs %s, inputs %s): %s" % (r["h"]["name"], rc, obs[:12], s["obs"][:12], s["inputs"][:40], txt[-600:]))
        printed, nviol = set(), 0
        for r in results:
            h = r["h"]
            for v in r["violations"]:
                ok, log = v.get("confirmed", (False, "the native replay could not be built"))
                k = HS.match_known(self.known, h, v)
                if k is not None:
                    printed.add("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
                    continue
                if not ok:
                    problems.append("%s: counterexample for '%s' (%s) did not reproduce natively: %s; inputs %s" % (h["name"], v["id"], v["where"], log[-400:], v["inputs"][:60]))
                    continue
                nviol += 1
                rp = self.save_replay(h, v, log)
                viols.append((h, v, rp, log))
            for c in h["covers"]:
                if not r["covers"].get(c) and not any(v["kind"] for v in r["violations"]):
                    problems.append("%s: vacuous: witness '%s' was never reached" % (h["name"], c))
            if r["paths"] == 0 and not r["violations"]:
                problems.append("%s: no path completed" % h["name"])
            if r["checks"] == 0 and not r["violations"]:
                problems.append("%s: no assertion was reached" % h["name"])
            if r["solver"]["unknown"]:
                problems.append("%s: %d solver queries undecided" % (h["name"], r["solver"]["unknown"]))
            for p in r["problems"]:
                problems.append("%s: %s" % (h["name"], p))
        problems += mism
        for x in diverged[:3]:
            print("  note: schedule not followed natively: " + x)
        for line in sorted(printed):
            print(line)
        if not self.only:
            self.evidence(spec, hs, results, validated, nviol, problems, printed, time.time() - t0)
        for h, v, rp, log in viols:
            print("violated: [%s] %s at %s; inputs %s" % (h["name"], v["id"], v["where"], v["inputs"][:64]))
            print("  native replay: " + log.replace("\n", "\n    ")[:1500])
        if viols:
            problems = [p for p in problems if not p.endswith(": time limit")] + ["harnesses were cut short by the violation"] * os.path.exists(self.stop)
        # a quick check that ran out of time reports what it explored; nothing else may be wrong, and every witness must have been reached
        late = problems and not viols and self.tier == "quick" and all(p.endswith(": time limit") for p in problems)
        for p in problems:
            print(("INCOMPLETE " if late else "PROBLEM ") + p[:2000])
        print("%s: %d harness(es), %d paths, %d assertions, %d queries, solver %.1fs, %d traces validated, %.1fs" % (
            self.prop, len(results), sum(r["paths"] for r in results), sum(r["checks"] for r in results), sum(r["solver"]["queries"] for r in results),
            sum(r["solver"]["time_s"] for r in results), validated, time.time() - t0))
        if viols:
            print("VIOLATION property=%s replay=%s" % (self.prop, viols[0][2]), flush=True)
            return 1
        return 2 if problems and not late else 0

    def save_replay(self, h, v, log):
        d = os.path.join(BUILD, "replay", self.prop)
        os.makedirs(d, exist_ok=True)
        n = re.sub(r"\W+", "-", h["name"] + "-" + v["id"])[:80]
        path = os.path.join(d, n + ".json")
        with open(path, "w") as f:
            json.dump({"property": self.prop, "harness": h["name"], "source": "harness/" + h["src"], "defines": h["defs"], "configuration": h["config"], "kind": v["kind"], "assertion": v["id"],
                       "where": v["where"], "inputs": v["inputs"], "native_replay": log[-4000:],
                       "how": "check.py %s --only %s rebuilds the harness; the inputs are fed in order to vp_nd/vp_choose/vp_nd_bytes by rt/native.cpp" % (self.prop, h["name"])}, f, indent=1)
        return path

    def evidence(self, spec, hs, results, validated, nviol, problems, printed, wall):
        lines = {}
        for r in results:
            for f, n in r["lines"].items():
                f = f.replace(REPO + "/", "")
                lines.setdefault(f, set()).update(n)
        if os.environ.get("VP_LINES"):
            with open(os.path.join(os.environ["VP_LINES"], self.prop + ".json"), "w") as f:
                json.dump({k: sorted(v) for k, v in lines.items()}, f)
        lines = {f: len(v) for f, v in sorted(lines.items())}
        samples = []
        for r in results:
            for s in r["samples"][:1]:
                samples.append({"harness": r["h"]["name"], "inputs": s["inputs"][:48], "observed": s["obs"][:16]})
        tot = lambda k: sum(r[k] for r in results)
        cov = {
            "states": tot("paths") + tot("assumed_out") + tot("forks"), "transitions": tot("instructions"),
            "traces_validated_against_impl": validated, "samples": samples[:12],
            "paths_completed": tot("paths"), "paths_cut_by_assumptions": tot("assumed_out"),
            "assertions_evaluated": tot("checks"), "assertions_decided_by_solver": tot("symbolic_checks"),
            "queries": sum(r["solver"]["queries"] for r in results), "solver_calls": sum(r["solver"]["z3_calls"] for r in results),
            "queries_sat": sum(r["solver"]["sat"] for r in results), "queries_unsat": sum(r["solver"]["unsat"] for r in results),
            "queries_undecided": sum(r["solver"]["unknown"] for r in results), "solver_time_s": round(sum(r["solver"]["time_s"] for r in results), 2),
            "functions_encoded": sorted({f for r in results for f in r["functions"]}), "source_lines_executed_symbolically": lines,
            "harnesses": [{"name": r["h"]["name"], "source": "harness/" + r["h"]["src"], "configuration": r["h"]["config"], "bound": r["h"]["bound"], "paths": r["paths"], "instructions": r["instructions"], "assertions": r["checks"],
                           "queries": r["solver"]["queries"], "solver_s": round(r["solver"]["time_s"], 2), "witnesses_reached": sorted(r["covers"]), "max_symbolic_inputs": r["max_inputs"], "wall_s": round(r["wall_s"], 2)} for r in results],
            "bounds": spec["bounds"], "outside_bounds": spec["outside"], "known_findings_seen": sorted(printed), "inconclusive": problems[:20], "bounds_exhausted": not problems and not nviol,
        }
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": HS.COMMON_ASSUMPTIONS + spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": nviol}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--only")
    ap.add_argument("--config", choices=sorted(CONFIGS))
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    r = Runner(a.prop, tier, a.only, a.v)
    r.config = a.config
    try:
        rc = r.main()
    except CheckError as e:
        print("PROBLEM " + str(e))
        rc = 2
    finally:
        if not a.keep:
            shutil.rmtree(r.tmp, ignore_errors=True)
        else:
            print("kept " + r.tmp)
    sys.stdout.flush()
    os._exit(rc)


main()
