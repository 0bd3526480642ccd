"""Writes checks/known_functions.txt: the functions of the repository the source rules were written for.  Functions that are not listed
(helpers factored out later) are always followed by the path analysis instead of being treated as calls.  Run on the unchanged tree."""
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "checks"))
import srclib as s
F = s.main_facts()
q = sorted({re.sub(r"<.*?>", "", s.norm(f["q"])) for f in F.funcs if f["file"].startswith(("include/ftk/", "src/"))})
open(os.path.join(os.path.dirname(os.path.abspath(s.__file__)), "known_functions.txt"), "w").write("\n".join(q) + "\n")
print(len(q))
