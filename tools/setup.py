#!/usr/bin/env python3
"""Nothing needs preparing: each check builds what it needs from /repo. This only reports the tools found."""
import shutil, sys
miss = [t for t in ("cargo", "verus") if not shutil.which(t)]
print("missing: " + ", ".join(miss) if miss else "all tools present")
