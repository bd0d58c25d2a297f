#!/usr/bin/env python3
"""Build the extractor and the witness crate (checks also build them when missing)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
check.extract('advantage')
check.extract('probe')
p = check.sh(['cargo', 'build', '--offline', '-q'], cwd=os.path.join(check.ROOT, 'witness'), env={'CARGO_TARGET_DIR': os.path.join(check.BUILD, 'witness')})
print('witness build', p.returncode)
