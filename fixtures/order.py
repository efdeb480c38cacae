"""Positive and negative examples for the hash order rules (never run)."""
import uuid


class Graph:
    def __init__(self):
        self.users = {}
        self.order = []
        self.nodes = []

    def make_node(self, op, inputs):
        self.nodes.append((op, inputs))
        return op

    def register(self, name, user):
        if name not in self.users:
            self.users[name] = set()
        self.users[name].add(user)


class BadAttr(Graph):
    def consumers(self, name):
        return [u for u in self.users[name]]

    def first(self, name):
        return self.consumers("x")[0]


class OneAttr(Graph):
    def consumers(self, name):
        return [u for u in self.users[name]]

    def first(self, name):
        c = self.consumers("x")
        if len(c) == 1:
            return c[0]
        return None


def bad_loop(g: Graph, names):
    g = Graph()
    for n in set(str(x) for x in names):
        g.make_node(n, [])


def good_loop(names):
    g = Graph()
    for n in sorted(set(str(x) for x in names)):
        g.make_node(n, [])
    for n in dict.fromkeys(str(x) for x in names):
        g.make_node(n, [])
    cnt = 0
    for n in set(str(x) for x in names):
        cnt += len(n)
    return cnt


def bad_kept(names):
    g = Graph()
    g.order = list({str(x) for x in names})
    return g


def bad_accumulated(names):
    g = Graph()
    out = []
    for n in frozenset(str(x) for x in names):
        out.append(n)
    g.order = out
    return g


def good_accumulated(names):
    g = Graph()
    out = []
    for n in frozenset(str(x) for x in names):
        out.append(n)
    g.order = sorted(out)
    return g


def bad_pick(names):
    s = {str(x) for x in names}
    return next(iter(s))


def bad_last(names):
    r = None
    for n in {str(x) for x in names}:
        if n.startswith("a"):
            r = n
    return r


def good_numbers(n):
    s = set(i for i in range(n))
    return [i for i in s][0]


def bad_id(node):
    return "node_%d" % id(node)


def bad_uuid(node):
    return "node_" + f"{uuid.uuid4()}"


def good_id(node, table):
    table[id(node)] = node
    return table


def bad_sort(nodes):
    nodes.sort(key=id)
    return nodes
