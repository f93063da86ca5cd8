"""Stand-in for ray: tasks run on pickled copies of their arguments, results come back pickled and in an order
the seed decides.  Lets one process explore the schedules of the parallel engines deterministically."""
import pickle, random, sys, types

import cloudpickle


class Ref:
    def __init__(self, data):
        self.data = data


class Remote:
    def __init__(self, ray, fn):
        self.ray, self.fn = ray, fn

    def remote(self, *args):
        refs = [isinstance(a, Ref) for a in args]
        blob = cloudpickle.dumps([None if f else a for f, a in zip(refs, args)])
        vals = [pickle.loads(a.data) if f else v for f, a, v in zip(refs, args, pickle.loads(blob))]
        self.ray.submitted += 1
        return Ref(cloudpickle.dumps(self.fn(*vals)))


def make(seed):
    m = types.ModuleType("ray")
    m.rng, m.submitted, m.reordered = random.Random(seed), 0, 0
    m.put = lambda v: Ref(cloudpickle.dumps(v))
    m.remote = lambda fn: Remote(m, fn)
    m.is_initialized = lambda: True
    m.init = lambda *a, **k: None
    m.shutdown = lambda: None

    def get(r):
        return [pickle.loads(x.data) for x in r] if isinstance(r, list) else pickle.loads(r.data)

    def wait(refs, num_returns=1, timeout=None):
        done = m.rng.sample(range(len(refs)), min(num_returns, len(refs)))
        m.reordered += done[0] > 0
        return [refs[i] for i in done], [r for i, r in enumerate(refs) if i not in done]

    m.get, m.wait = get, wait
    return m


def install(seed):
    import verse.analysis.verifier as v
    m = make(seed)
    sys.modules["ray"] = m
    if hasattr(v, "ray"):
        v.ray = m
    import verse.analysis.simulator as s
    if hasattr(s, "ray"):
        s.ray = m
    return m
