"""Walks over the transition graph that TLC emitted, covering every transition."""
from collections import defaultdict, deque


class Graph:
    def __init__(self, rows, init):
        self.init = init
        self.out = defaultdict(list)        # state -> [(op, target)]
        for r in rows:
            self.out[r[0]].append((tuple(r[1:-1]), r[-1]))
        for s in self.out:
            self.out[s].sort()
        self.n = sum(len(v) for v in self.out.values())

    def cover(self, rng, maxlen=200):
        """Walks from the initial state that together take every transition once or more.
        Yields lists of (op, target, first_visit_of_target)."""
        todo = {}
        for s, v in self.out.items():
            v = list(v)
            rng.shuffle(v)
            todo[s] = v
        left = self.n
        seen = {self.init}
        nxt = {s: sorted(set((t, o) for o, t in v if t != s)) for s, v in self.out.items()}
        while left:
            cur, walk = self.init, []
            while left and len(walk) < maxlen:
                if todo.get(cur):
                    op, t = todo[cur].pop()
                    left -= 1
                    walk.append((op, t, t not in seen))
                    seen.add(t)
                    cur = t
                    continue
                path = self._nearest(cur, todo, nxt)
                if path is None:
                    break
                for op, t in path:
                    walk.append((op, t, False))
                    cur = t
            if not walk:
                raise AssertionError("unreachable transitions")
            yield walk

    def _nearest(self, cur, todo, nxt):
        prev = {cur: None}
        q = deque([cur])
        while q:
            s = q.popleft()
            for t, op in nxt.get(s, ()):
                if t in prev:
                    continue
                prev[t] = (s, op)
                if todo.get(t):
                    path = []
                    while prev[t] is not None:
                        s2, op2 = prev[t]
                        path.append((op2, t))
                        t = s2
                    return path[::-1]
                q.append(t)
        return None
