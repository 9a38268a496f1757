"""Builds the driver once, to warm the Go build cache."""
import sys
sys.dont_write_bytecode = True
import lib
c = lib.Check('setup', 'quick', 1)
try:
    c.build()
finally:
    c.cleanup()
print('driver builds')
