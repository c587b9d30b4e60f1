#!/usr/bin/env python3
"""Builds everything the checks use, so that the first check does not pay for it."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
hs = sorted(f[:-4] for f in os.listdir(os.path.join(build.VERIF, "harness")) if f.endswith(".cpp"))
build.build("asan", hs + ["tool:2xb", "tool:xb2xml", "tool:2xbw"])
build.build("plain", ["xbtool", "tool:2xb"])
build.build_preload("fault")
print("built", hs)
