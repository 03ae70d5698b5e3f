#!/usr/bin/env python3
"""check.py <property id> : decides one property from /repo's current source (see DESIGN.md)."""
import importlib, os, sys, threading
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [V + "/engine", V + "/checks"]
sys.setrecursionlimit(20000)
threading.stack_size(512 << 20)


def main():
    import fw
    pid = sys.argv[1]
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" or "--thorough" in sys.argv else "quick"
    m = importlib.import_module(pid.lower())
    res.append(fw.run(pid, tier, m.run))


res = []
t = threading.Thread(target=main)
t.start()
t.join()
sys.stdout.flush()
sys.exit(res[0] if res else 3)
