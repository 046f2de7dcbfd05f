#!/usr/bin/env python3
"""Builds every simulator once (each check also builds what it needs)."""
import mkninja
mkninja.build_go()
for n in sorted(mkninja.BUILDS):
    print(mkninja.BUILDS[n]())
