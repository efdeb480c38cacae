"""Self test of C19: copies of nodes, complete and not."""
from tf2onnx import constants


def good_copy(g, node):
    return g.make_node(node.type, node.input, outputs=node.output, attr=node.attr, name=node.name, skip_conversion=node.skip_conversion,
                       domain=node.domain, branches=node.get_body_graphs())


def good_locals(g, ops):
    for n in ops:
        dom = n.op.domain
        at = dict(n.attr)
        bodies = {}
        for k, b in n.graph.contained_graphs.pop(n.name, {}).items():
            bodies[k] = b
        kind = n.type
        ins = list(n.input)
        g.make_node(kind, ins, attr=at, name=n.name, skip_conversion=True, domain=dom, branches=bodies)


def good_later(g, n):
    new = g.make_node(n.type, n.input, attr=n.attr, skip_conversion=False, branches=n.get_body_graphs())
    new.domain = n.domain
    return new


def good_other(g, n):
    return g.make_node(n.type, [n.input[0]], attr={"axis": 1})


def _make(g, kind, ins, node, **kw):
    return g.make_node(kind, ins, attr=node.attr, skip_conversion=True, branches=node.get_body_graphs(), **kw)


def good_helper(g, node):
    return _make(g, node.type, node.input, node, domain=node.domain) if False else _make2(g, node.type, node.input[:], node, node.domain)


def _make2(g, kind, ins, node, dom):
    return g.make_node(kind, ins, attr=node.attr, skip_conversion=True, branches=node.get_body_graphs(), domain=dom)


def _make3(g, kind, ins, node):
    return g.make_node(kind, ins, attr=node.attr, skip_conversion=True, branches=node.get_body_graphs())


def bad_helper(g, node):
    return _make3(g, node.type, node.input, node)


def bad_copy_domain(g, node):
    return g.make_node(node.type, node.input, attr=node.attr, skip_conversion=True, branches=node.get_body_graphs())


def bad_copy_attr(g, node):
    return g.make_node(node.type, node.input, domain=node.domain, skip_conversion=True, branches=node.get_body_graphs())


def bad_copy_bodies(g, node):
    return g.make_node(node.type, [i for i in node.input], attr=node.attr, domain=node.domain, skip_conversion=True)


def bad_copy_skip(g, node):
    return g.make_node(node.type, node.input, attr=node.attr, domain=node.domain, branches=node.get_body_graphs())


def bad_constant(g, node):
    return g.make_node(node.type, node.input, attr=node.attr, domain="", skip_conversion=True, branches=node.get_body_graphs())


def bad_site(g, ops):
    for op in ops:
        op.domain = constants.CONTRIB_OPS_DOMAIN
