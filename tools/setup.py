"""Nothing is kept between runs: every check builds what it needs from /repo. Verify that the tools are here."""
import shutil, sys
missing = [t for t in ("g++", "cmake", "ninja", "addr2line") if not shutil.which(t)]
print("missing: %s" % missing if missing else "tools present")
sys.exit(1 if missing else 0)
