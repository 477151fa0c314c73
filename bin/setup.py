#!/opt/venv/bin/python
"""Build the extension module of the code under test from /repo's sources (kept under /verif/.build by content)"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness'))
import boot
print(boot.build())
