"""Stateless exploration of environment answers: every path of a bounded choice tree."""


class Choices:
    """Depth-first enumeration: run, then `advance()` until it returns False.
    choose(i, n): i-th choice point of the run, n alternatives; the first call at a new
    index takes alternative 0. Asking again for the same index repeats the answer."""

    def __init__(self, depth, prefix=()):
        self.depth = depth
        self.path = list(prefix)
        self.fixed = len(self.path)
        self.width = [0] * len(self.path)
        self.used = 0

    def begin(self):
        self.used = 0

    def choose(self, i, n):
        """None beyond the depth bound."""
        if i >= self.depth:
            return None
        while len(self.path) <= i:
            self.path.append(0)
            self.width.append(n)
        if i < self.fixed:
            self.width[i] = n
        self.used = max(self.used, i + 1)
        return self.path[i]

    def advance(self):
        """Next path; choice points that were not reached in the last run are dropped."""
        del self.path[max(self.used, self.fixed):]
        del self.width[max(self.used, self.fixed):]
        while len(self.path) > self.fixed:
            if self.path[-1] + 1 < self.width[-1]:
                self.path[-1] += 1
                return True
            self.path.pop()
            self.width.pop()
        return False
