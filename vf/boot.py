"""Make Hypothesis importable (offline) for the interpreter that has diffrax."""
import os
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEPS = os.path.join(ROOT, ".deps")
PY = "/opt/venv/bin/python"
WHEELS = "/opt/veriftools/wheels"


def ensure_deps():
    if os.path.isdir(os.path.join(DEPS, "hypothesis")) and os.path.isdir(
        os.path.join(DEPS, "sortedcontainers")
    ):
        return
    tmp = tempfile.mkdtemp(prefix=".deps.", dir=ROOT)
    subprocess.run(
        [PY, "-m", "pip", "install", "-q", "--no-index", "--no-deps",
         "--disable-pip-version-check", "--find-links", WHEELS, "--target", tmp,
         "hypothesis", "sortedcontainers"],
        check=True, stdout=sys.stderr,
    )
    try:
        os.rename(tmp, DEPS)
    except OSError:
        # somebody else installed it meanwhile
        subprocess.run(["rm", "-rf", tmp])


if __name__ == "__main__":
    ensure_deps()
