"""Passes that leave operators illegal at some opsets (never run; each must be flagged) and ones that must stay silent."""
from tf2onnx.graph_builder import GraphBuilder
from tf2onnx.optimizer.optimizer_base import GraphOptimizerBase


def rewrite_vf_missing(g, ops):
    for node in ops:
        if node.type == "VFSum":
            g.remove_node(node.name)
            g.make_node("CumSum", node.input[:2], outputs=node.output)
    return ops


def rewrite_vf_guarded(g, ops):
    if g.opset < 11:
        return ops
    for node in ops:
        if node.type == "VFSum":
            g.remove_node(node.name)
            g.make_node("CumSum", node.input[:2], outputs=node.output)
    return ops


def rewrite_vf_handed_on(g, ops):
    for node in ops:
        if node.type == "VFSum":
            g.remove_node(node.name)
            g.make_node("LeakyRelu", node.input[:1], outputs=node.output, skip_conversion=False)
    return ops


class VFAxesOptimizer(GraphOptimizerBase):
    def _optimize(self, graph):
        return self._apply_optimization(graph, self._level)

    def _level(self, graph):
        for node in graph.get_nodes():
            if node.type == "Reshape":
                graph.remove_node(node.name)
                graph.make_node("Unsqueeze", node.input[:1], attr={"axes": [0]}, outputs=node.output)
        return graph


class VFBuilderOptimizer(GraphOptimizerBase):
    def _optimize(self, graph):
        return self._apply_optimization(graph, self._level)

    def _level(self, graph):
        for node in graph.get_nodes():
            if node.type == "Reshape":
                graph.remove_node(node.name)
                GraphBuilder(graph).make_unsqueeze({"data": node.input[0], "axes": [0]}, outputs=node.output)
            elif node.type == "Resize" and len(node.input) > 2:
                graph.remove_node(node.name)
                graph.make_node("Resize", node.input, outputs=node.output)
        return graph
