"""Self tests of C23: each function but `fine` has one broken reference."""
import logging
import numpy as np
from tf2onnx import utils, constants
from tf2onnx.graph import Graph
from tf2onnx.graph_matcher import OpTypePattern, GraphMatcher

logger = logging.getLogger(__name__)


def helper(a, b, c=1):
    return a, b, c


def undefined_name(g: Graph):
    return [no_such_name for _ in range(3)]


def unbound_local(x):
    y = later + x
    later = y
    return later


def missing_member():
    return constants.NO_SUCH_CONSTANT


def missing_method():
    g = Graph([], opset=9)
    return g.no_such_method("a")


def missing_np(x):
    return np.no_such_function(x)


def wrong_arity():
    return helper(1)


def wrong_keyword():
    g = Graph([], opset=9)
    return g.make_const("a", np.array([1]), no_such=True)


def wrong_ext_keyword(x):
    return np.clip(x, minimum=1)


def add_text(x):
    n = len(x)
    return "number " + n


def short_format(x):
    return "%s and %s" % (x,)


def short_log(x):
    logger.warning("%s and %s", x)


def no_element(g):
    pattern = OpTypePattern("Add", name="add")
    for match in GraphMatcher(pattern).match_ops(g.get_nodes()):
        return match.get_op("sub")


def fine(x, *args, **kw):
    g = Graph([], opset=9)
    pattern = OpTypePattern("Add", name="add")
    names = [n.name for n in g.get_nodes()]
    for match in GraphMatcher(pattern).match_ops(g.get_nodes()):
        names.append(match.get_op("add").name)
    if x:
        z = helper(*args)
    else:
        z = helper(1, b=2)
    logger.info("%s of %d%%", names, len(z))
    try:
        w = np.no_such_alias
    except AttributeError:
        w = np.float32
    utils.make_sure(x, "%s", w)
    return "{} {}".format(x, w) + "a" + str(len(names)), lambda q: q + x, helper(**kw)
