"""Nothing is prebuilt: see that the tools are there."""
import shutil, sys
sys.exit(any([print("missing: " + t) or True for t in ("gcc", "make", "ar", "tlc") if not shutil.which(t)]))
