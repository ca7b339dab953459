#!/usr/bin/env python3
"""Nothing is prebuilt (every check builds from /repo's working tree): make
sure that the tools are there."""
import os, subprocess, sys
os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'evidence'), exist_ok=True)
sys.exit(subprocess.call('printf "#include <armadillo>\\nint main(){}" | g++ -std=c++17 -fsyntax-only -x c++ -', shell=True))
