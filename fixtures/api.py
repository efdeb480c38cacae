"""Handlers for the graph-API rules (never run): one per violation, one that does everything right."""
from tf2onnx import utils
from tf2onnx.handler import tf_op


@tf_op("VFOutputLost")
class OutputLost:
    @classmethod
    def version_6(cls, ctx, node, **kwargs):
        ctx.remove_node(node.name)
        n = ctx.make_node("Relu", node.input[:1])
        if ctx.get_rank(n.output[0]) is not None:
            ctx.replace_all_inputs(node.output[0], n.output[0])


@tf_op("VFOutputKept")
class OutputKept:
    @classmethod
    def version_6(cls, ctx, node, **kwargs):
        shapes = node.output_shapes
        ctx.remove_node(node.name)
        if shapes[0] is None:
            ctx.make_node("Relu", node.input[:1], outputs=node.output)
        else:
            n = ctx.make_node("Relu", node.input[:1])
            ctx.replace_all_inputs(node.output[0], n.output[0])


@tf_op("VFAfterRemove")
class AfterRemove:
    @classmethod
    def version_6(cls, ctx, node, **kwargs):
        ctx.remove_node(node.name)
        ctx.make_node("Relu", node.input[:1], outputs=node.output, shapes=node.output_shapes)


@tf_op("VFTwice")
class Twice:
    @classmethod
    def version_6(cls, ctx, node, **kwargs):
        ctx.remove_node(node.name)
        if ctx.get_rank(node.input[0]) == 2:
            ctx.remove_node(node.name)
        ctx.make_node("Relu", node.input[:1], outputs=node.output)


@tf_op("VFCount")
class Count:
    @classmethod
    def version_6(cls, ctx, node, **kwargs):
        dt = ctx.get_dtype(node.input[0])
        n = ctx.make_node("Relu", node.input[:1], shapes=[[1], [2]], dtypes=[dt])
        ctx.remove_node(node.name)
        ctx.make_node("Relu", [n.output[0]], outputs=node.output)


@tf_op("VFTaken")
class Taken:
    @classmethod
    def version_6(cls, ctx, node, **kwargs):
        ctx.make_node("Relu", node.input[:1], outputs=node.output)
        ctx.remove_node(node.name)


@tf_op("VFNodeTensor")
class NodeTensor:
    @classmethod
    def version_6(cls, ctx, node, **kwargs):
        n = ctx.make_node("Relu", node.input[:1])
        ctx.remove_node(node.name)
        ctx.make_node("Relu", [n], outputs=node.output)


@tf_op("VFTensorNode")
class TensorNode:
    @classmethod
    def version_6(cls, ctx, node, **kwargs):
        n = ctx.make_node("Relu", node.input[:1]).output[0]
        ctx.remove_node(node.name)
        ctx.make_node("Relu", [n.output[0]], outputs=node.output)


@tf_op("VFReplace")
class Replace:
    @classmethod
    def version_6(cls, ctx, node, **kwargs):
        node.type = "Relu"
        n = ctx.make_node("Relu", [node.input[0]])
        ctx.replace_input(node, node.input[1], n.output[0], 0)


@tf_op("VFShape")
class Shape:
    @classmethod
    def version_6(cls, ctx, node, **kwargs):
        node.type = "Relu"
        shape = ctx.get_shape(node.input[0])
        if shape is not None:
            shape[0] = -1


@tf_op("VFBadArg")
class BadArg:
    @classmethod
    def version_6(cls, ctx, node, **kwargs):
        node.type = "Relu"
        ctx.make_node("Relu", node.input[:1], attrs={"a": 1})


@tf_op("VFFixedName")
class FixedName:
    @classmethod
    def version_6(cls, ctx, node, **kwargs):
        node.type = "Relu"
        c = ctx.make_const("relu_const", np.array([1]))
        ctx.replace_input(node, node.input[0], c.output[0], 0)


@tf_op("VFClean")
class Clean:
    @classmethod
    def version_6(cls, ctx, node, **kwargs):
        shapes, dtypes = node.output_shapes, node.output_dtypes
        shape = list(ctx.get_shape(node.input[0]))
        shape[0] = -1
        c = ctx.make_const(utils.make_name(node.name), np.array([1]))
        n = ctx.make_node("Add", [node.input[0], c.output[0]], name=node.name + "__add", shapes=[shape], dtypes=[dtypes[0]])
        ctx.remove_node(node.name)
        ctx.make_node("Relu", [n.output[0]], name=node.name, outputs=node.output, shapes=shapes, dtypes=dtypes)


@tf_op("VFOthersInput")
class OthersInput:
    @classmethod
    def version_6(cls, ctx, node, **kwargs):
        node.type = "Relu"
        ctx.insert_new_node_on_output("Cast", node.input[0], to=1)


@tf_op("VFOthersReaders")
class OthersReaders:
    @classmethod
    def version_6(cls, ctx, node, **kwargs):
        node.type = "Relu"
        n = ctx.make_node("Cast", node.input[:1], attr={"to": 1})
        ctx.replace_all_inputs(node.input[0], n.output[0])


@tf_op("VFOthersConst")
class OthersConst:
    @classmethod
    def version_6(cls, ctx, node, **kwargs):
        node.type = "Relu"
        c = node.inputs[0]
        if c.is_const():
            c.set_tensor_value(c.get_tensor_value(as_list=False) + 1)


@tf_op("VFOthersNode")
class OthersNode:
    @classmethod
    def version_6(cls, ctx, node, **kwargs):
        node.type = "Relu"
        if node.inputs[0].type == "Squeeze":
            node.inputs[0].set_attr("axes", [0])


@tf_op("VFOthersRemoved")
class OthersRemoved:
    @classmethod
    def version_6(cls, ctx, node, **kwargs):
        node.type = "Relu"
        inp = node.inputs[0]
        ctx.replace_input(node, node.input[0], inp.input[0], 0)
        ctx.remove_node(inp.name)


@tf_op("VFOwnReader")
class OwnReader:
    @classmethod
    def version_6(cls, ctx, node, **kwargs):
        node.type = "Relu"
        inp = node.inputs[0]
        readers = ctx.find_output_consumers(node.input[0])
        if len(readers) == 1 and inp.is_const():
            inp.set_tensor_value(inp.get_tensor_value(as_list=False) + 1)
        elif not inp.is_const() and not len(readers) > 1:
            ctx.replace_input(node, node.input[0], inp.input[0], 0)
            ctx.remove_node(inp.name)
        else:
            ctx.insert_new_node_on_input(node, "Cast", node.input[0], to=1)


@tf_op("VFProducerOutput")
class ProducerOutput:
    @classmethod
    def version_6(cls, ctx, node, **kwargs):
        src = node.inputs[0]
        ctx.remove_node(node.name)
        ctx.make_node("Relu", [src.output[0]], outputs=node.output)


@tf_op("VFProducerOutputs")
class ProducerOutputs:
    @classmethod
    def version_6(cls, ctx, node, **kwargs):
        src = node.inputs[0]
        ctx.remove_node(node.name)
        ctx.make_node("Relu", src.output, outputs=node.output)


@tf_op("VFProducerType")
class ProducerType:
    @classmethod
    def version_6(cls, ctx, node, **kwargs):
        node.type = "Relu"
        ctx.set_dtype(node.output[0], ctx.get_dtype(node.inputs[0].output[0]))


@tf_op("VFProducerKnown")
class ProducerKnown:
    @classmethod
    def version_6(cls, ctx, node, **kwargs):
        node.type = "Relu"
        src = node.inputs[0]
        if src.is_const() or src.type == "Cast":
            n = ctx.make_node("Relu", [src.output[0]], dtypes=[ctx.get_dtype(src.output[0])])
            ctx.replace_input(node, node.input[0], n.output[0], 0)


@tf_op("LogUniformCandidateSampler")
class LeftAside:
    @classmethod
    def version_6(cls, ctx, node, **kwargs):
        n = ctx.make_node("Relu", node.input[:1], output_count=2)
        ctx.replace_all_inputs(node.output[0], n.output[0])
        ctx.replace_all_inputs(node.output[2], n.output[1])


@tf_op("VFOneShape")
class OneShape:
    @classmethod
    def version_6(cls, ctx, node, **kwargs):
        n = ctx.make_node("Relu", node.input[:1], shapes=ctx.get_shape(node.input[0]))
        ctx.remove_node(node.name)
        ctx.make_node("Relu", [n.output[0]], outputs=node.output)


@tf_op("VFUnbound")
class Unbound:
    @classmethod
    def version_7(cls, ctx, node, **kwargs):
        if ctx.get_rank(node.input[0]) == 2:
            axes = [0]
        ctx.insert_new_node_on_input(node, "Transpose", node.input[0], perm=axes)


@tf_op("VFTextAndNumber")
class TextAndNumber:
    @classmethod
    def version_7(cls, ctx, node, **kwargs):
        dtype = ctx.get_dtype(node.input[0])
        if dtype == 1:
            raise ValueError("bad type " + dtype)
        node.type = "Identity"
        if ctx.get_rank(node.input[0]) == 4:
            raise ValueError("bad type " + ctx.get_dtype(node.input[0]))


@tf_op("VFBoundRight")
class BoundRight:
    @classmethod
    def version_7(cls, ctx, node, **kwargs):
        rank = ctx.get_rank(node.input[0])
        if rank == 2:
            axes = [0]
        else:
            rest = 1
        if rank == 2:
            node.set_attr("axes", axes)
        else:
            node.set_attr("axes", [rest])
        node.type = "Identity" + str(rank)


@tf_op("VFNoAttribute")
class NoAttribute:
    @classmethod
    def version_7(cls, ctx, node, **kwargs):
        import numpy as np
        dt = utils.map_onnx_to_numpy_type(ctx.get_dtype(node.input[0]))
        if np.dtype(dt).kind == "f":
            v = np.array(0, dt)
        else:
            v = np.iinfo(dt).max
        ctx.make_const("vf", v.tolist())
