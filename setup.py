#!/usr/bin/env python3
"""Build the MIR driver and the fact base once (every check refreshes the facts itself)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import facts
facts.ensure()
print("facts ready")
