#!/usr/bin/env python3
"""Checks that the tools the harnesses need are present; builds nothing that depends on /repo."""
import shutil, subprocess, sys, os
for t in ('g++', 'python3'):
    if not shutil.which(t):
        print('missing', t); sys.exit(1)
v = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(v, 'build'), exist_ok=True)
os.makedirs(os.path.join(v, 'evidence'), exist_ok=True)
r = subprocess.run(['g++', '-std=c++20', '-fsyntax-only', '-x', 'c++', '-'], input='#include <boost/spirit/include/qi.hpp>\n#include <rapidjson/document.h>\nint main(){}\n', text=True)
sys.exit(r.returncode)
