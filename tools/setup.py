"""Checks that the tools are there; nothing has to be built in advance."""
import shutil
import sys
import z3
missing = [t for t in ("clang++", "llvm-link", "flex", "bison", "c++filt") if not shutil.which(t)]
print("z3", z3.get_version_string(), "missing tools:", missing or "none")
sys.exit(1 if missing else 0)
