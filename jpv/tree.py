"""Helpers for the modes that write graphs as trees: strongly connected parts, tree sizes."""

from . import compare


def children_of(obj, project):
    """The values that the projection of an object consists of (see ``project``)."""
    kind, parts = project(obj)
    if kind == "seq":
        return list(parts)
    if kind == "map":
        return list(parts.values())
    return []


class Shape:
    """Strongly connected components and tree size of the graph below ``root``."""

    def __init__(self, root, project, limit=20000):
        self.keep = []
        self.succ = {}
        order = []
        todo = [root]
        while todo:
            o = todo.pop()
            if id(o) in self.succ or compare.is_atom(o):
                continue
            self.keep.append(o)
            kids = [c for c in children_of(o, project) if not compare.is_atom(c)]
            self.keep.extend(kids)
            self.succ[id(o)] = [id(c) for c in kids]
            order.append(id(o))
            todo.extend(kids)
            if len(order) > 3000:
                break
        self.comp = {}
        self._components()
        self.sizes = {}
        self.too_big = len(order) > 3000 or self._size(id(root), limit) > limit

    def _components(self):
        index, low, stack, on, n = {}, {}, [], set(), 0
        for start in self.succ:
            if start in index:
                continue
            work = [(start, iter(self.succ[start]))]
            index[start] = low[start] = n
            n += 1
            stack.append(start)
            on.add(start)
            while work:
                u, it = work[-1]
                for v in it:
                    if v not in self.succ:
                        continue
                    if v not in index:
                        index[v] = low[v] = n
                        n += 1
                        stack.append(v)
                        on.add(v)
                        work.append((v, iter(self.succ[v])))
                        break
                    if v in on:
                        low[u] = min(low[u], index[v])
                else:
                    work.pop()
                    if work:
                        p = work[-1][0]
                        low[p] = min(low[p], low[u])
                    if low[u] == index[u]:
                        while True:
                            w = stack.pop()
                            on.discard(w)
                            self.comp[w] = u
                            if w == u:
                                break
        sizes = {}
        for u, c in self.comp.items():
            sizes[c] = sizes.get(c, 0) + 1
        self.cyclic = {u for u, c in self.comp.items()
                       if sizes[c] > 1 or u in self.succ[u]}

    def _size(self, u, limit, depth=0):
        """Upper estimate of the number of nodes of the tree."""
        if u in self.sizes:
            return self.sizes[u]
        if u not in self.succ or depth > 200:
            return 1
        self.sizes[u] = 1  # on the stack: cut here
        total = 1
        for v in self.succ[u]:
            total += self._size(v, limit, depth + 1)
            if total > limit:
                break
        self.sizes[u] = total
        return total
