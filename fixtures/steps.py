"""self tests of C11: drivers that hide or report the failure of a step"""
import copy
import logging

logger = logging.getLogger(__name__)


def mapping_hides(g, ops_mapping, is_tflite=False):
    errors = []
    for node in list(g.get_nodes()):
        if node.need_skip():
            continue
        op = node.type
        info = ops_mapping.get(op)
        if info is None:
            logger.info("no conversion for %s", op)
            continue
        func, kwargs = info
        try:
            node.skip_conversion = True
            func(g, node, **kwargs)
        except Exception as ex:
            logger.debug("failed %s", ex)
    return errors


def mapping_reports(g, ops_mapping, is_tflite=False):
    errors = []
    for node in list(g.get_nodes()):
        if node.need_skip():
            continue
        info = ops_mapping.get(node.type)
        if info is None:
            logger.error("no conversion for %s", node.type)
            continue
        e = convert_one(g, node, info)
        if e is not None:
            errors.append(e)
    return errors


def convert_one(g, node, info):
    func, kwargs = info
    try:
        func(g, node, **kwargs)
        node.skip_conversion = True
        return None
    except Exception as ex:
        logger.warning("failed %s", ex)
        return ex


def optimize_damages(graph, catch_errors=True):
    for factory in FACTORIES:
        try:
            graph = factory().optimize(graph, 0) or graph
        except Exception:
            if not catch_errors:
                raise
            logger.warning("failed", exc_info=1)
    return graph


def optimize_copies(graph, catch_errors=True):
    for factory in FACTORIES:
        graph = one(factory, graph, catch_errors)
    return graph


def one(factory, graph, catch_errors):
    if not catch_errors:
        return factory().optimize(graph, 0)
    try:
        work = copy.deepcopy(graph)
        return factory().optimize(work, 0)
    except Exception:
        logger.warning("failed", exc_info=1)
        return graph


def hides(g, funcs, continue_on_error):
    for func in funcs:
        try:
            g.reset_nodes(func(g, g.get_nodes()))
        except Exception as ex:
            logger.error("failed %s", ex)
            if not continue_on_error and func.__name__:
                raise


def reports(g, funcs, continue_on_error):
    for func in funcs:
        try:
            g.reset_nodes(func(g, g.get_nodes()))
        except Exception as ex:
            logger.error("failed %s", ex)
            if continue_on_error:
                continue
            raise


def swallows(g, ops):
    try:
        for op in ops:
            g.remove_node(op.name)
    except Exception:
        pass
    return ops


def tells(g, ops):
    try:
        for op in ops:
            g.remove_node(op.name)
    except Exception as ex:
        logger.warning("could not remove: %s", ex)
    return ops
