"""Program run in separate processes by check C19: performs the calls listed in a file in the given order
and prints the outcome of each.  argv: calls-file order-seed"""
import os
import pickle
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import target  # noqa: E402
target.load()
import script  # noqa: E402

calls = pickle.load(open(sys.argv[1], 'rb'))
order = list(range(len(calls)))
if sys.argv[2] != '0':
    random.Random(int(sys.argv[2])).shuffle(order)
out = {}
for i in order:
    out[i] = script.outcome(None, calls[i])[1]
with open(sys.argv[3], 'wb') as f:
    pickle.dump((hash('probe'), out), f)
