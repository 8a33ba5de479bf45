#!/usr/bin/env python3
"""setup: the toolchain is present and the specification automata agree with hand-checked words"""
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'engine'))
sys.dont_write_bytecode = True
import automata as A
import grammar
import front
assert os.path.exists(front.CLANG) and os.path.exists(front.OPT), 'clang/opt missing'
D, _ = A.dfa_multi([A.URIREF])
N = grammar.url_net()
GOOD = ['', 'http://a:b@[::1.2.3.4]:80/p?q#f', 'a:b', '/%2f', '//[1:2:3:4:5:6:7::]', '////', '//a:', '?#', 'a/b:c', '//u:p@', 'x:', '//%41', '?a&b=1&c=']
BAD = ['1:b', '//[::1::]', '/%2', '//a:b', '#a#', ' ', 'a b', '//[1::2::3]', '//[1:2:3:4:5:6:7]', '//a@b@c', ':', '//[v1.a]']
for w in GOOD + BAD:
    assert D.accepts(w.encode()) == (w in GOOD), w
    assert len(grammar.runs(N, w.encode())) == int(w in GOOD), w
    s = sum(len(grammar.runs(grammar.url_net(sl), w.encode())) for sl in grammar.SLICES)
    assert s == int(w in GOOD), w
print('selfcheck ok')
