"""Handlers that break the emitted-operator rules (never run; the check must flag each) and ones that must stay silent."""
import numpy as np
from tf2onnx.handler import tf_op
from tf2onnx.graph_builder import GraphBuilder
from tf2onnx import utils


@tf_op("VFOpMissing")
class OpMissing:
    @classmethod
    def version_6(cls, ctx, node, **kwargs):
        name = "Cum" + "Sum"
        ctx.remove_node(node.name)
        ctx.make_node(name, node.input[:2], outputs=node.output)


@tf_op("VFOpDeprecated")
class OpDeprecated:
    @classmethod
    def version_6(cls, ctx, node, **kwargs):
        ctx.remove_node(node.name)
        ctx.make_node("Upsample", node.input[:2], outputs=node.output)


@tf_op("VFAttrUnknown")
class AttrUnknown:
    @classmethod
    def version_6(cls, ctx, node, **kwargs):
        ctx.remove_node(node.name)
        ctx.make_node("ReduceMax", node.input[:1], attr={"keep_dims": 0}, outputs=node.output)


@tf_op("VFAttrMissing")
class AttrMissing:
    @classmethod
    def version_6(cls, ctx, node, **kwargs):
        ctx.remove_node(node.name)
        ctx.make_node("Concat", node.input[:1], outputs=node.output)


@tf_op("VFAttrType")
class AttrType:
    @classmethod
    def version_6(cls, ctx, node, **kwargs):
        node.type = "Elu"
        node.set_attr("alpha", 1)


@tf_op("VFFewInputs")
class FewInputs:
    @classmethod
    def version_6(cls, ctx, node, **kwargs):
        ctx.remove_node(node.name)
        ctx.make_node("Gather", [node.input[0]], outputs=node.output)


@tf_op("VFManyInputs")
class ManyInputs:
    @classmethod
    def version_6(cls, ctx, node, **kwargs):
        inps = [node.input[0]]
        inps.append(node.input[0])
        ctx.remove_node(node.name)
        ctx.make_node("Relu", inps, outputs=node.output)


@tf_op("VFManyOutputs")
class ManyOutputs:
    @classmethod
    def version_6(cls, ctx, node, **kwargs):
        ctx.make_node("Relu", [node.input[0]], output_count=2)


@tf_op("VFGood")
class Good:
    @classmethod
    def version_6(cls, ctx, node, **kwargs):
        new = GraphBuilder(ctx).make_squeeze({"data": node.input[0], "axes": [0]})
        if ctx.opset < 11:
            new = ctx.make_node("Pad", [new], attr={"pads": [0, 0]}).output[0]
        else:
            pads = ctx.make_const(utils.make_name("pads"), np.array([0, 0], np.int64)).output[0]
            new = ctx.make_node("Pad", [new, pads]).output[0]
        ctx.remove_node(node.name)
        cls.emit(ctx, new, node)

    @classmethod
    def emit(cls, ctx, inp, node):
        axes = [0] if ctx.opset >= 13 else None
        if axes is not None:
            c = ctx.make_const(utils.make_name("axes"), np.array(axes, np.int64)).output[0]
            ctx.make_node("Unsqueeze", [inp, c], outputs=node.output)
        else:
            ctx.make_node("Unsqueeze", [inp], attr={"axes": [0]}, outputs=node.output)
