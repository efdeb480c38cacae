"""Handlers for the element type rules (never run); the part of the op name after the colon is the TensorFlow op they stand for."""
import numpy as np
from onnx import onnx_pb

from tf2onnx import utils
from tf2onnx.handler import tf_op


@tf_op("VFNotAccepted:Tile")
class NotAccepted:
    @classmethod
    def version_13(cls, ctx, node, **kwargs):
        # multiples may be int32
        if ctx.get_rank(node.input[0]) == 2:
            ctx.replace_inputs(node, [node.input[0], node.input[1]])
        node.type = "Tile"


@tf_op("VFConstType:Tile")
class ConstType:
    @classmethod
    def version_13(cls, ctx, node, **kwargs):
        reps = ctx.make_const(utils.make_name("reps"), np.array([1, 2], np.int32)).output[0]
        n = ctx.make_node("Tile", [node.input[0], reps]).output[0]
        ctx.replace_all_inputs(node.output[0], n)
        ctx.remove_node(node.name)


@tf_op("VFDiffer:Relu")
class Differ:
    @classmethod
    def version_13(cls, ctx, node, **kwargs):
        one = ctx.make_const(utils.make_name("one"), np.array(1, np.float32)).output[0]
        n = ctx.make_node("Mul", [node.input[0], one]).output[0]
        ctx.replace_all_inputs(node.output[0], n)
        ctx.remove_node(node.name)


@tf_op("VFRecorded:Relu")
class Recorded:
    @classmethod
    def version_13(cls, ctx, node, **kwargs):
        dtypes = node.output_dtypes
        x = ctx.make_node("Cast", [node.input[0]], attr={'to': onnx_pb.TensorProto.FLOAT}).output[0]
        n = ctx.make_node("Relu", [x], dtypes=dtypes).output[0]
        n = ctx.make_node("Cast", [n], attr={'to': dtypes[0]}).output[0]
        ctx.replace_all_inputs(node.output[0], n)
        ctx.remove_node(node.name)


@tf_op("VFResult:Relu")
class Result:
    @classmethod
    def version_13(cls, ctx, node, **kwargs):
        x = node.input[0]
        if ctx.get_dtype(x) != onnx_pb.TensorProto.FLOAT:
            x = ctx.make_node("Cast", [x], attr={'to': onnx_pb.TensorProto.FLOAT}).output[0]
        n = ctx.make_node("Relu", [x]).output[0]
        ctx.replace_all_inputs(node.output[0], n)
        ctx.remove_node(node.name)


@tf_op("VFTypesRight:Relu")
class TypesRight:
    @classmethod
    def version_13(cls, ctx, node, **kwargs):
        dtype = ctx.get_dtype(node.input[0])
        x = node.input[0]
        cast = dtype not in [onnx_pb.TensorProto.FLOAT, onnx_pb.TensorProto.DOUBLE]
        if cast:
            x = ctx.make_node("Cast", [x], attr={'to': onnx_pb.TensorProto.FLOAT}).output[0]
        one = np.array(1, np.float32 if cast else utils.map_onnx_to_numpy_type(dtype))
        x = ctx.make_node("Mul", [x, ctx.make_const(utils.make_name("one"), one).output[0]]).output[0]
        n = ctx.make_node("Relu", [x]).output[0]
        if cast:
            n = ctx.make_node("Cast", [n], attr={'to': dtype}, dtypes=[dtype]).output[0]
        ctx.replace_all_inputs(node.output[0], n)
        ctx.remove_node(node.name)
