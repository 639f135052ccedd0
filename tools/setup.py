#!/usr/bin/env python3
"""setup_cmd: build the harness once (cached by content; every check rebuilds when /repo changes)"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import plan
plan.setup()
