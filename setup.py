#!/usr/bin/env python3
"""Builds the AST dumper and warms the parse cache."""
import os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'lib'))
sys.dont_write_bytecode = True
from prog import Program
p = Program()
print('%d functions, %d records' % (len(p.funcs), len(p.records)))
