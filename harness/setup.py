#!/usr/bin/env python3
"""Checks that the tools are present. The checks build what they need from /repo themselves."""
import os
import subprocess
import sys

HARNESS = os.path.dirname(os.path.abspath(__file__))
os.makedirs(os.path.join(os.path.dirname(HARNESS), ".build"), exist_ok=True)
sys.exit(subprocess.run(["g++", "--version"], stdout=subprocess.DEVNULL).returncode)
