import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(1, os.path.join(ROOT, ".deps"))
sys.path.insert(1, "/repo")
import warnings  # noqa: E402

warnings.filterwarnings("ignore")
from vf import core  # noqa: E402

if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        import json

        path = sys.argv[2]
        with open(path) as f:
            rec = json.load(f)
        mod = core.load(rec["property"])
        part = [p for p in mod.PARTS if p.name == rec["part"]][0]
        try:
            core.run_case(part, rec["case"])
        except core.Violation as v:
            print(f"replay: violated: {v}")
            sys.stdout.flush()
            os._exit(1)
        print("replay: held")
        sys.stdout.flush()
        os._exit(0)
    core.worker_main(sys.argv[1:])
