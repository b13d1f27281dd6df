#!/usr/bin/env python3
"""Checks that the tools every check needs are there; checks build everything themselves."""
import shutil, sys, os
miss = [t for t in ("gcc", "g++", "clang", "clang++") if not shutil.which(t)]
if not os.path.exists("/opt/vp/venv/lib/libmkl_rt.so.2"): miss.append("libmkl_rt")
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence"), exist_ok=True)
print("missing: " + ", ".join(miss) if miss else "ok"); sys.exit(1 if miss else 0)
