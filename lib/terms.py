"""Terms of symbolic specifications against observed byte strings: equal terms are equal bytes, different terms different bytes."""
import json, mbt


class Names:
    def __init__(self):
        self.t2b, self.b2t = {}, {}

    def agrees(self, term, b):
        t = json.dumps(term, sort_keys=True)
        b = bytes(b)
        if self.t2b.setdefault(t, b) != b or self.b2t.setdefault(b, t) != t:
            return False
        return True

    def cmp(self, fields):
        """Comparison for mbt.replay: the given fields of the expected observation are terms, the others are values."""
        def f(e, o):
            if not isinstance(o, dict): return False
            if not mbt.match({k: v for k, v in e.items() if k not in fields or e[k] == []}, {**o, **{k: [] for k in fields if e.get(k) == []}}): return False
            return all(k in o and self.agrees(e[k], o[k]) for k in fields if k in e and e[k] != [])
        return f


def tokens(fields):
    """Post-processing of recorded traces: byte strings in the given fields become numbers, the same for equal bytes."""
    def f(trace):
        seen = {}
        for x in trace:
            for k in fields:
                if isinstance(x["o"], dict) and k in x["o"]: x["o"][k] = seen.setdefault(json.dumps(x["o"][k]), len(seen) + 1)
        return trace
    return f
