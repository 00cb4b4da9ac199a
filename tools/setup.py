#!/usr/bin/env python3
"""builds the MIR dump driver and the dependencies the analysis compiles against"""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import common
common.dump('utils')
common.dump(root=common.REFERENCE)
