#!/usr/bin/env python3
"""Builds the native helper of the numeric domain."""

import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from sa import ir, nat      # noqa: E402

if nat.load() is None:
    print('the native helper cannot be built: using Python instead')

if not os.path.exists(ir.CLANG):
    sys.exit('no clang')
