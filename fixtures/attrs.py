"""Handlers for the attribute rule (never run): two that ignore an attribute, one that does not."""
from tf2onnx.handler import tf_op


@tf_op("Cumsum")
class IgnoresAttr:
    @classmethod
    def version_11(cls, ctx, node, **kwargs):
        ctx.remove_node(node.name)
        ctx.make_node("CumSum", node.input[:2], attr={"exclusive": node.get_attr_value("exclusive")}, outputs=node.output)


@tf_op("ArgMax")
class ReadsUnused:
    @classmethod
    def version_6(cls, ctx, node, **kwargs):
        out_type = node.get_attr_value("output_type")
        sh = ctx.get_rank(node.input[0])
        ctx.remove_node(node.name)
        ctx.make_node("ArgMax", node.input[:1], attr={"axis": sh}, outputs=node.output)


@tf_op("SpaceToBatch")
class IgnoresOnOnePath:
    @classmethod
    def version_6(cls, ctx, node, **kwargs):
        if ctx.get_rank(node.input[0]) == 4:
            bs = 1
        else:
            bs = node.get_attr_value("block_size")
        ctx.remove_node(node.name)
        ctx.make_node("SpaceToDepth", node.input[:1], attr={"blocksize": bs}, outputs=node.output)


@tf_op("Cumprod")
class Honours:
    @classmethod
    def version_11(cls, ctx, node, **kwargs):
        cls.do(ctx, node)

    @classmethod
    def do(cls, ctx, node):
        flags = {k: node.get_attr(k).i for k in ["exclusive", "reverse"]}
        ctx.remove_node(node.name)
        ctx.make_node("CumSum", node.input[:2], attr=flags, outputs=node.output)
