"""Makes sure the tools the checks rely on are there and every specification parses."""
import glob, os, subprocess, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

for t in (["g++", "--version"], ["java", "-version"]):
    subprocess.run(t, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
spec = os.path.join(vlib.ROOT, "spec")
mods = sorted(os.path.basename(f) for f in glob.glob(os.path.join(spec, "*.tla")))
p = subprocess.run(["java", "-cp", vlib.JAR, "tla2sany.SANY", *mods], cwd=spec, capture_output=True, text=True)
if p.returncode != 0 or "***Parse Error***" in p.stdout or "*** Errors" in p.stdout:
    print(p.stdout[-4000:])
    sys.exit(1)
print(f"{len(mods)} modules parsed")
