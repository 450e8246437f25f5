#!/usr/bin/env python3
"""setup_cmd: builds the driver and the plugin, the standalone tool and the clang-tidy module from /repo's tree."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vbuild
b = vbuild.build(("ClazyPlugin", "clazy-standalone", "ClazyClangTidy"))
print("built in %.1fs (cold: %s)" % (b.seconds, b.cold))
for v in (5, 6):
    vbuild.norm(v)
