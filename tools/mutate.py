#!/usr/bin/env python3
"""Mutation campaign: how many small changes of the library do the checks see? (A tool, not a check.)

mutate.py OUT [workers [max [file substring]]]

Each mutant is made in a scratch copy of /repo's sources, and the checks which exercise its file are run on it
without their models (which do not depend on the code) until one of them rejects it. Survivors are listed in OUT.
"""
import json, os, random, re, shutil, subprocess, sys, tempfile, threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("VERIF_REPO", "/repo")
FILES = {
    "LitlContainer/LitlContainer/AlignedBuffer.h": "C07 C06 C29", "LitlContainer/LitlContainer/Arithmetic.h": "C09",
    "LitlContainer/LitlContainer/ContiguousContainer.h": "C10 C26 C31 C01", "LitlContainer/LitlContainer/DataContainer.h": "C02 C08 C06 C26 C10 C30",
    "LitlContainer/LitlContainer/DataDistribution.h": "C20", "LitlContainer/LitlContainer/Holders.h": "C06 C08 C30",
    "LitlContainer/LitlContainer/Math.h": "C09 C28", "LitlContainer/LitlContainer/Random.h": "C21 C30", "LitlContainer/LitlContainer/Sequence.h": "C08 C06 C26 C21",
    "LitlIo/LitlIo/Fits.h": "C25", "LitlIo/LitlIo/impl/Fits.hpp": "C25", "LitlRaster/LitlRaster/Ball.h": "C12", "LitlRaster/LitlRaster/BallIterator.h": "C12",
    "LitlRaster/LitlRaster/Box.h": "C11 C03 C05", "LitlRaster/LitlRaster/BoxIterator.h": "C03 C04 C31", "LitlRaster/LitlRaster/Raster.h": "C01 C08 C05 C26 C06 C04 C14 C09 C21",
    "LitlRaster/LitlRaster/impl/Raster.hpp": "C01 C02 C05 C08 C26", "LitlRaster/LitlRaster/Sampling.h": "C13 C17", "LitlRaster/LitlRaster/Subraster.h": "C04",
    "LitlRaster/LitlRaster/SubrasterIterator.h": "C04 C31", "LitlRaster/LitlRaster/Vector.h": "C11 C01 C15 C13", "LitlRun/LitlRun/Chronometer.h": "C23",
    "LitlRun/LitlRun/impl/Chronometer.hpp": "C23", "LitlRun/LitlRun/ProgramOptions.h": "C24", "LitlRun/LitlRun/impl/ProgramOptions.hpp": "C24",
    "LitlRun/src/lib/ProgramOptions.cpp": "C24", "LitlRun/src/lib/IterationBenchmark.cpp": "C31", "LitlRun/LitlRun/IterationBenchmark.h": "C31", "LitlRun/LitlRun/StepperPipeline.h": "C22", "LitlTransforms/LitlTransforms/Convolution.h": "C16 C17",
    "LitlTransforms/LitlTransforms/Dft.h": "C19", "LitlTransforms/LitlTransforms/DftPlan.h": "C19", "LitlTransforms/LitlTransforms/DftMemory.h": "C19",
    "LitlTransforms/LitlTransforms/impl/Dft.hpp": "C19", "LitlTransforms/LitlTransforms/impl/DftPlan.hpp": "C19",
    "LitlTransforms/LitlTransforms/Interpolation.h": "C14 C15", "LitlTransforms/LitlTransforms/InterpolationMethods.h": "C14 C15",
    "LitlTransforms/LitlTransforms/Kernel.h": "C16 C17", "LitlTransforms/LitlTransforms/LineKernel.h": "C17", "LitlTransforms/LitlTransforms/SeparableKernel.h": "C17",
    "LitlTransforms/LitlTransforms/MedianFilter.h": "C18", "LitlTypes/LitlTypes/SeqUtils.h": "C29 C10 C22", "LitlTypes/LitlTypes/TypeUtils.h": "C28 C15 C14 C11 C21 C09 C30",
    "LitlTypes/LitlTypes/Segment.h": "C13 C28 C17", "LitlTypes/LitlTypes/Exceptions.h": "C29 C02",
}
SWAPS = [(" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "),
         (" + ", " - "), (" - ", " + "), (" * ", " + "), (" / ", " * "), (" && ", " || "), (" || ", " && "), ("not ", ""),
         ("++", "--"), ("--", "++"), (" += ", " -= "), (" -= ", " += "), (" *= ", " += "), ("begin()", "end()"),
         ("front()", "back()"), ("back()", "front()"), ("m_front", "m_back"), ("m_back", "m_front"), ("true", "false"), ("false", "true"),
         ("std::min", "std::max"), ("std::max", "std::min"), (" ? ", " ? not "), ("std::move(", "("), ("std::forward<", "static_cast<"),
         (".first", ".second"), (".second", ".first"), ("size()", "size() - 1"), (" += ", " = "), ("min()", "max()"), ("max()", "min()"), (" | ", " & "), (" & ", " | "), (" % ", " / "), ("Index ", "int "), ("const auto& ", "const auto "), ("auto& ", "auto "), ("double", "float"), ("std::size_t ", "unsigned short "), ("Index(", "int("), ("&& ", " "), ("<Index>(", "<int>("), ("if (", "if (not "), ("return ", "return -")]


def mutants(root):
    out = []
    for f, checks in FILES.items():
        p = os.path.join(root, f)
        if not os.path.exists(p):
            continue
        doc = False
        for i, line in enumerate(open(p).read().split("\n")):
            s = line.strip()
            if s.startswith("/*"):
                doc = True
            if doc:
                if "*/" in s:
                    doc = False
                continue
            code = line.split("//")[0]
            if not s or s.startswith(("//", "#", "template", "static_assert", "using ", "typename ", "namespace")):
                continue
            for a, b in SWAPS:
                for m in re.finditer(re.escape(a), code):
                    out.append((f, checks, i, line[:m.start()] + b + line[m.end():]))
            for m in re.finditer(r"(?<![\w.<])([0-3])(?![\w.>])", code):
                v = int(m.group(1))
                for n in {v + 1, max(v - 1, 0)} - {v}:
                    out.append((f, checks, i, line[:m.start()] + str(n) + line[m.end():]))
            if re.match(r"^\s+[\w:\.\[\]\(\)\*<>\-, &=+]+;$", code) and not re.match(r"^\s*(return|using|typedef|const|auto|[\w:<>, ]+ [mi]_\w+;|break|static|friend|default)", code):
                out.append((f, checks, i, "  ;"))
            if s.startswith(("break;", "continue;")):
                out.append((f, checks, i, "  ;"))
    return out


def main():
    outp = sys.argv[1]
    nw = int(sys.argv[2]) if len(sys.argv) > 2 else 4
    most = int(sys.argv[3]) if len(sys.argv) > 3 else 200
    only = sys.argv[4] if len(sys.argv) > 4 else ""
    rnd = random.Random(int(os.environ.get("MUTATE_SEED", "1")))
    ms = [m for m in mutants(SRC) if only in m[0]]
    rnd.shuffle(ms)
    q = queue.Queue()
    for m in ms[:most]:
        q.put(m)
    print(len(ms), "mutants,", q.qsize(), "run", flush=True)
    lock = threading.Lock()
    tally = {}

    def work(k):
        root = tempfile.mkdtemp(prefix="mutant_")
        for d in os.listdir(SRC):
            if d.startswith("Litl"):
                shutil.copytree(SRC + "/" + d, root + "/" + d, ignore=shutil.ignore_patterns("tests", "*.fits", "*.o"))
        while True:
            try:
                f, checks, i, new = q.get_nowait()
            except queue.Empty:
                break
            src = open(SRC + "/" + f).read().split("\n")
            old = src[i]
            src[i] = new
            open(root + "/" + f, "w").write("\n".join(src))
            verdict = "SURVIVED"
            for c in checks.split():
                env = dict(os.environ, VERIF_REPO=root, VERIF_SEED="1", VERIF_TIER="quick", VERIF_NOMODEL="1", VERIF_JOBS="3",
                           VERIF_OUT=root + "/out")
                try:
                    r = subprocess.run(["nice", "-n", "10", "python3", V + "/tools/check.py", c], env=env, cwd=V,
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1200)
                except subprocess.TimeoutExpired:
                    verdict = "TIMEOUT " + c
                    break
                if r.returncode == 1 and ".refused.json" in r.stdout:
                    verdict = "uncompilable " + c
                    break
                if r.returncode == 1:
                    verdict = "killed " + c
                    break
                if r.returncode == 2:
                    verdict = ("uncompilable " if "compilation failed" in r.stdout or "link failed" in r.stdout else "ERROR ") + c
                    if verdict.startswith("ERROR"):
                        verdict += " " + r.stdout[-300:].replace("\n", " | ")
                    break
            shutil.copy(SRC + "/" + f, root + "/" + f)
            with lock:
                tally[verdict.split()[0]] = tally.get(verdict.split()[0], 0) + 1
                with open(outp, "a") as o:
                    o.write("%s\n  %s:%d\n  - %s\n  + %s\n" % (verdict, f, i + 1, old.strip(), new.strip()))
        shutil.rmtree(root, ignore_errors=True)

    ts = [threading.Thread(target=work, args=(k,)) for k in range(nw)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    print(tally, flush=True)


if __name__ == "__main__":
    main()
