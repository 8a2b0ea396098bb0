"""sanity of the tool chain: every specification module parses; nothing is built here (checks build from /repo)"""
import os, subprocess, sys
here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
for m in ("Script", "Sweep", "Relate", "Handle", "Memory"):
    r = subprocess.run(["java", "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tla2sany.SANY", m + ".tla"],
                       cwd=here, capture_output=True, text=True)
    if r.returncode:
        sys.exit(r.stdout[-2000:])
print("ok")
