"""Nothing to build: verifies that the tools the checks need are present and every specification parses."""
import glob, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
bad = 0
with tempfile.TemporaryDirectory() as d:
    for f in sorted(glob.glob(os.path.join(V, "spec", "*.tla"))):
        p = subprocess.run(["java", "-cp", JAR, "-Djava.io.tmpdir=" + d, "-DTLA-Library=" + os.path.join(V, "spec"), "tla2sany.SANY", f], cwd=d,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode or "rror" in p.stdout:
            bad += 1
            print(f, p.stdout[-1500:])
subprocess.run(["/opt/venv/bin/python", "-c", "import numpy, pandas, networkx, scipy"], check=True)
sys.exit(1 if bad else 0)
