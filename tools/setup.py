#!/usr/bin/env python3
"""Builds the model checking runtime and proves it can tell right from wrong: its self-test must pass."""
import os
import shutil
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
b = os.path.join(V, "build", "selftest")
os.makedirs(b, exist_ok=True)
I = ["-I" + V + "/mc", "-I" + V + "/h"]
try:
    subprocess.check_call(["g++", "-std=c++20", "-O2", "-w"] + I + ["-c", V + "/mc/mc.cpp", "-o", b + "/mc.o"])
    subprocess.check_call(["g++", "-std=c++20", "-O1", "-w", "-fsanitize=thread"] + I +
                          ["-c", V + "/mc/selftest.cpp", "-o", b + "/st.o"])
    subprocess.check_call(["g++", b + "/st.o", b + "/mc.o", "-o", b + "/st",
                           "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset", "-lpthread"])
    r = subprocess.call([b + "/st"])
finally:
    shutil.rmtree(b, ignore_errors=True)
sys.exit(r)
