#!/usr/bin/env python3
"""Builds the harness once, so that the checks start from a warm build cache."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rv
os.makedirs(rv.BUILD, exist_ok=True)
rv.build(os.path.join(rv.BUILD, "radverif"))
rv.build(os.path.join(rv.BUILD, "radverif-race"), race=True)
rv.build(os.path.join(rv.BUILD, "radolan2png"), pkg=rv.IMPORT + "/radolan2png")
print("setup: harness built")
