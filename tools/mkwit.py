#!/usr/bin/env python3
"""Writes the lexer witnesses from lapscheck/lexspecs.py."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from lapscheck import lexspecs
lexspecs.write(os.path.join(V, "witness/w_lex/src/lib.rs"), lexspecs.QUICK)
lexspecs.write(os.path.join(V, "witness/w_lexmore/src/lib.rs"), lexspecs.MORE)
