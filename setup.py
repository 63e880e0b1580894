"""setup_cmd: warms the object and AST caches (every check can also build what it needs by itself)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from harness import build
for f in ("tok", "parser", "enums", "ffi", "server"):
    if hasattr(build, f):
        try:
            print(f, getattr(build, f)())
        except build.BuildError as e:
            print("build error", str(e)[-800:]); sys.exit(1)
