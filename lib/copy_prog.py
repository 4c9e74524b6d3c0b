"""Runs in a new interpreter: reads pickled spaces and values on stdin, prints nothing, writes what it saw and computed."""
import contextlib
import io
import os
import pickle
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.dirname(HERE)]
import target  # noqa: E402

target.load()
import script  # noqa: E402
from checks import c37  # noqa: E402

repo, jobs = pickle.loads(sys.stdin.buffer.read())
out = []
try:
    with contextlib.redirect_stdout(io.StringIO()):
        for g, calls, vs in jobs:
            g = pickle.loads(g)
            vs = pickle.loads(vs)
            desc = c37.describe(g)
            outs = [script.outcome(g, c)[1] for c in calls]
            out.append((desc, outs, [c37.describe(v) for v in vs], pickle.dumps(vs)))
except Exception:
    import traceback
    sys.stderr.write('VPCOPY ' + traceback.format_exc())
    sys.exit(1)
sys.stdout.buffer.write(pickle.dumps(out))
sys.stdout.flush()
