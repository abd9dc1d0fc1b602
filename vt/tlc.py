"""Runs TLC."""
import os, re, shutil, subprocess, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
from .build import HERE, BUILD, ToolError

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = HERE + "/spec"


class Result:
    def __init__(self, name, rc, out):
        self.name, self.rc, self.out = name, rc, out
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        if not m:
            m = re.findall(r"states generated=(\d+)|The number of states generated: (\d+)", out)
            if m:
                self.generated = int(m[-1][0] or m[-1][1])
        m = re.findall(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m[-1]) if m else 0

    def ok(self):
        return self.rc == 0


def tlc(module, cfg=None, env=None, args=(), timeout=600, heap="3g", workers=1, jvm=()):
    os.makedirs(BUILD + "/tlc", exist_ok=True)
    d = tempfile.mkdtemp(prefix="md", dir=BUILD + "/tlc")
    try:
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m",
               "-Djava.io.tmpdir=" + d, *jvm, "-cp", JARS, "tlc2.TLC", "-nowarning", "-noGenerateSpecTE",
               "-workers", str(workers), "-config", (cfg if cfg and cfg[0] == "/" else f"{SPEC}/{cfg or module}") + ".cfg", "-metadir", d + "/md", *args,
               f"{SPEC}/{module}.tla"]
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC {module} {cfg or ''} timed out after {timeout} s")
        return Result(f"{module}/{cfg or module}", r.returncode, r.stdout)
    finally:
        shutil.rmtree(d, ignore_errors=True)
