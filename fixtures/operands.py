"""Handlers for the operand rule (never run): two that drop an operand, two that do not."""
import numpy as np
from tf2onnx import utils
from tf2onnx.handler import tf_op, tfl_op


@tf_op("VFDrops:MatrixBandPart")
class Drops:
    @classmethod
    def version_7(cls, ctx, node, **kwargs):
        ctx.remove_node(node.name)
        if ctx.get_rank(node.input[0]) == 2:
            ctx.make_node("Max", node.input[:3], outputs=node.output)
        else:
            ctx.make_node("Max", node.input[:2], outputs=node.output)


@tfl_op(["VFRebuilds:TFL_FULLY_CONNECTED"], tf_op="MatMul")
class Rebuilds:
    @classmethod
    def to_tf(cls, ctx, node, **kwargs):
        flat = ctx.make_node("Flatten", [node.input[0]])
        ctx.replace_inputs(node, [flat.output[0], node.input[1]])
        if len(node.input) == 3:
            b = node.input[2]
            ctx.replace_inputs(node, node.input[:2])
            ctx.insert_new_node_on_output("Add", node.output[0], inputs=[node.output[0], b])


@tfl_op(["VFKeeps:TFL_FULLY_CONNECTED"], tf_op="MatMul")
class Keeps:
    @classmethod
    def to_tf(cls, ctx, node, **kwargs):
        flat = ctx.make_node("Flatten", [node.input[0]])
        ctx.replace_inputs(node, [flat.output[0]] + node.input[1:])
        if len(node.input) == 3:
            b = node.input[2]
            ctx.replace_inputs(node, node.input[:2])
            ctx.insert_new_node_on_output("Add", node.output[0], inputs=[node.output[0], b])


@tf_op("VFFolds:MatrixBandPart")
class Folds:
    @classmethod
    def version_7(cls, ctx, node, **kwargs):
        low, high = [n.get_tensor_value() for n in node.inputs[1:3]]
        utils.make_sure(high >= 0, "band")
        k = ctx.make_const(utils.make_name("k"), np.array(low, np.int64))
        ctx.remove_node(node.name)
        ctx.make_node("Trilu", [node.input[0], k.output[0]], outputs=node.output)
