"""setup_cmd: warm the build of every harness group and the native replayer"""
import os
import sys
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "lsx"))
sys.path.insert(0, ROOT)
import registry
import runner
runner.replayer()
for g in sorted({h["group"] for p in registry.PROPS.values() for h in p["harnesses"]}):
    try:
        print(g, runner.build(g))
    except runner.BuildError as e:
        print(g, "does not build:", e)
