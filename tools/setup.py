#!/usr/bin/env python3
"""Nothing to install: confirms that the compilers the checks need are there."""
import subprocess, sys
for c in ("g++", "clang++"):
    v = subprocess.run([c, "--version"], stdout=subprocess.PIPE).stdout.decode().splitlines()[0]
    print(v)
