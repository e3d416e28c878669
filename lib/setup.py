"""setup_cmd: nothing to download; verify the tools and warm the library builds (each check rebuilds what it needs anyway)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
os.makedirs(common.BUILD, exist_ok=True)
th = common.tree_hash()
for c in ("asan", "plain"): print(c, common.build_lib(c, th))
