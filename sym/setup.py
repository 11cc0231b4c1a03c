"""setup_cmd: build the harness crate (IR and native replayers) once, so that the checks start warm."""
import sys
from . import build
from .suites import SUITES
feats = sorted({c.feature for s in SUITES.values() for c in s['configs']('quick')})
for f in feats:
    print('IR', f or '(default)', len(build.build_ir(f)))
    print('native', build.build_native(f))
