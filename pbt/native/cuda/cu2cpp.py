"""Rewrites dynamic shared memory, the one CUDA construct macros cannot express."""
import re
import sys

src, out = sys.argv[1:]
text = open(src).read()
text = re.sub(r"extern\s+__shared__\s+(?:__align__\s*\(\s*\d+\s*\)\s*)?([\w\s:<>]+?)\s+(\w+)\s*\[\s*\]\s*;",
              r"\1* \2 = (\1*) pbt_shared();", text)
open(out, "w").write(f'#line 1 "{src}"\n' + text)
