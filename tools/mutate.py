#!/usr/bin/env python3
"""Systematic planting: small mutations of one source file at a time in a scratch copy, judged by the given properties' checks.

usage: mutate.py SCRATCH_COPY OUT FILE PROP[,PROP...] [MAX [SEED]]
Prints the mutants no check notices (they are equivalent, dead code, or a hole)."""
import os, random, re, subprocess, sys
wt, out, fn, props = sys.argv[1:5]
mx = int(sys.argv[5]) if len(sys.argv) > 5 else 40
rnd = random.Random(int(sys.argv[6]) if len(sys.argv) > 6 else 1)
path = f"{wt}/include/asioext/{fn}"
src = open(path).read()
lines = src.split("\n")
REPL = [(r"(?<![<\-=>])<(?![<=])\s", "<= "), (r"(?<![-><=])>(?![>=])\s", ">= "), (r"<=", "<"), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
        (r" \+ ", " - "), (r" - ", " + "), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"!(?=[a-z(])", ""), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\+\+", "--"), (r" & ", " | "), (r" \| ", " & "), (r"\breturn;", ";"), (r"std::move\(([^()]*)\)", r"\1")]
muts = []; first = set()
dead = 0; stack = []
for i, l in enumerate(lines):
    t = l.strip()
    if t.startswith("#"):
        if re.match(r"#\s*if", t): stack.append(bool(re.search(r"UF_|SF_|FILE_FLAGS|WINDOWS|BOOST_ASIO\)|IS_DOCUMENTATION|#\s*if !defined\(ASIOEXT_HAS", t)) )
        elif re.match(r"#\s*(else|elif)", t) and stack: stack[-1] = not stack[-1] if re.match(r"#\s*else", t) and stack[-1] else stack[-1]
        elif re.match(r"#\s*endif", t) and stack: stack.pop()
        continue
    if any(stack) or not t or t.startswith("//") or t.startswith("///") or "template" in t or t.startswith(("using", "typedef", "namespace", "class", "struct", "friend", "ASIOEXT_NS")): continue
    code = l.split("//")[0]
    first.add(i)
    for a, b in REPL:
        for m in re.finditer(a, code):
            n = code[:m.start()] + m.expand(b) + code[m.end():]
            if n != code: muts.append((i, n))
    if re.match(r"^\s+[\w:.\->*()\[\]]+(\s*[|&+\-]?=|\(|\+\+|\.).*;$", code) and not re.match(r"^\s+(return|const|auto|typedef|using|throw|goto|case|int|std::size_t|error_code|unsigned|ssize_t|struct) ?", code): muts.append((i, re.match(r"^\s*", code).group(0) + ";"))
    if re.match(r"^\s+detail::mutex::scoped_lock", code): muts.append((i, ";"))
if os.environ.get("VP_MUT") == "2":  # the second kind: other names, other order, constant conditions
    muts = []
    live = [i for i in range(len(lines)) if i in first]
    word = re.compile(r"\b[a-z][A-Za-z_0-9]*\b")
    KW = set("if else for while return const auto int std size_t void static noexcept template typename class struct new delete this operator case switch break continue unsigned char true false inline public private using namespace throw try catch error_code asio asioext ec_t move forward explicit sizeof static_cast".split())
    for i in live:
        code = lines[i].split("//")[0]
        m = re.match(r"^(\s*(?:else )?if \()(.*)(\) ?\{?)$", code)
        if m and m.group(2).count("(") == m.group(2).count(")"):
            muts += [(i, m.group(1) + "true" + m.group(3)), (i, m.group(1) + "false" + m.group(3))]
        if i + 1 in first and code.rstrip().endswith(";") and lines[i + 1].rstrip().endswith(";") and (lines[i - 1].rstrip() or ";")[-1] in ";{}:" and len(code) - len(code.lstrip()) == len(lines[i + 1]) - len(lines[i + 1].lstrip()) and "return" not in code + lines[i + 1]:
            muts.append((i, lines[i + 1] + "\n//"  + code.strip() + "\n" + code + "\n#if 0"))
        near = sorted(set(m.group(0) for j in range(max(0, i - 14), min(len(lines), i + 15)) for c in [lines[j].split("//")[0]] if not c.lstrip().startswith("#") for m in word.finditer(c) if m.group(0) not in KW and not re.match(r"\s*(\(|::|<)", c[m.end():]) and not c[:m.start()].endswith("::")))
        for m in word.finditer(code):
            if m.group(0) in KW or m.group(0) not in near or '"' in code or "static_assert" in code: continue
            if code[:m.start()].endswith("::") or re.match(r"\s*(\(|::|<)", code[m.end():]): continue
            o = [w for w in near if w != m.group(0)]
            rnd.shuffle(o)
            for w in o[:2]: muts.append((i, code[:m.start()] + w + code[m.end():]))
rnd.shuffle(muts); muts = muts[:mx]
def compiles():
    t = f'#include "{wt}/src/asioext.cpp"\n' + "\n".join(f'#include "asioext/{h}"' for h in ["file.hpp", "socks/client.hpp", "connect.hpp", "read_file.hpp", "write_file.hpp", "experimental/buffered_stream.hpp", "unique_handler.hpp", "duplicate.hpp", "standard_streams.hpp", "url_view.hpp", "chrono.hpp", "cancellation_token.hpp", "compose.hpp"])
    return subprocess.run(["clang++", "-std=c++20", "-fsyntax-only", "-w", "-DASIO_STANDALONE", "-DASIOEXT_STANDALONE", "-DASIOEXT_SEPARATE_COMPILATION", f"-I{wt}/include", "-xc++", "-"], input=t, text=True, capture_output=True).returncode == 0
log = open(out, "a"); k = s = 0
try:
    for i, n in muts:
        L = list(lines); L[i] = n
        if n.endswith("#if 0"): L[i] = lines[i + 1]; L[i + 1] = lines[i]; n = L[i] + " <swap>"
        open(path, "w").write("\n".join(L))
        res = "SURVIVED"
        if os.environ.get("VP_MUT") == "2" and not compiles(): continue
        for p in props.split(","):
            r = subprocess.run(["python3", "/verif/check.py", p], env=dict(os.environ, VP_REPO=wt), capture_output=True, text=True)
            if r.returncode == 1: res = "killed " + p; break
            if r.returncode == 2:
                txt = r.stdout + r.stderr
                res = ("nocompile" if "error:" in txt else "PROBLEM " + p + " " + " ".join(x for x in txt.split("\n") if x.startswith("PROBLEM"))[:160]); break
        print(f"{res} | {fn}:{i+1} | {lines[i].strip()} -> {n.strip()}", file=log, flush=True)
finally:
    open(path, "w").write(src)
