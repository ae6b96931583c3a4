#!/usr/bin/env python3
"""Builds what the checks need, so that the first one doesn't take longer."""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import build
import runner
import tlc
tlc.classes()
runner.shim()
build.build('plain')
build.build('asan')
build.build_error_reporter()
print('ready')
