"""Containers of the module collections."""


class deque:
    def __init__(self, it=(), maxlen=None):
        self._v = []
        self.maxlen = maxlen
        for x in it:
            self.append(x)

    def append(self, x):
        self._v.append(x)
        if self.maxlen is not None and len(self._v) > self.maxlen:
            self._v.pop(0)

    def appendleft(self, x):
        self._v.insert(0, x)

    def extend(self, it):
        for x in it:
            self.append(x)

    def pop(self):
        return self._v.pop()

    def popleft(self):
        return self._v.pop(0)

    def clear(self):
        self._v.clear()

    def rotate(self, n=1):
        for _ in range(n):
            self._v.insert(0, self._v.pop())

    def __len__(self):
        return len(self._v)

    def __iter__(self):
        return iter(self._v)

    def __getitem__(self, i):
        return self._v[i]

    def __setitem__(self, i, v):
        self._v[i] = v

    def __contains__(self, x):
        return x in self._v


class Counter(dict):
    def __init__(self, it=()):
        super().__init__()
        self.update(it)

    def update(self, it):
        if isinstance(it, dict):
            for k in it:
                self[k] = self.get(k, 0) + it[k]
        else:
            for k in it:
                self[k] = self.get(k, 0) + 1

    def __missing__(self, k):
        return 0

    def total(self):
        return sum(self.values())
