"""Checks that the tools are there and that the library builds and imports."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
run = core.Run('setup', 'quick', 1)
try:
    run.build()
    assert core.JARS, 'TLA+ tools not found'
    print('ok')
finally:
    run.close()
