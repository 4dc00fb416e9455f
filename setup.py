#!/usr/bin/env python3
"""Builds the analyser and the metadata of the optional dependencies it needs."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "analyzer"))
import run
run.setup()
print("ready")
