"""TFLite handlers for the option rules (never run)."""
import numpy as np
from tf2onnx import utils
from tf2onnx.handler import tfl_op


def _act(ctx, node):
    utils.make_sure(node.attr['fused_activation_function'].s == b'NONE', "no activation")
    utils.make_sure(node.get_attr_int("quantized_bias_type") == 0, "no bias type")


@tfl_op(["VFForgets:TFL_TRANSPOSE_CONV"], tf_op="Conv2DBackpropInput")
class Forgets:
    @classmethod
    def to_tf(cls, ctx, node, **kwargs):
        _act(ctx, node)
        h = node.get_attr_int("stride_h")
        if ctx.get_rank(node.input[0]) == 4:
            node.set_attr("strides", [1, h, node.get_attr_int("stride_w"), 1])
        else:
            ctx.remove_node(node.name)
        node.set_attr("data_format", "NHWC")


@tfl_op(["VFSwaps:TFL_TRANSPOSE_CONV"], tf_op="Conv2DBackpropInput")
class Swaps:
    @classmethod
    def to_tf(cls, ctx, node, **kwargs):
        _act(ctx, node)
        h, w = [node.get_attr_int(k) for k in ("stride_w", "stride_h")]
        node.set_attr("strides", [1, h, w, 1])
        node.set_attr("data_format", "NHWC")


@tfl_op(["VFFirst:TFL_QUANTIZE"], onnx_op="QuantizeLinear")
class FirstOnly:
    @classmethod
    def version_10(cls, ctx, node, **kwargs):
        scale = node.get_attr_value('scale')
        zp = node.get_attr_value('zero_point')
        if len(scale) > 1 or len(zp) > 1:
            node.set_attr("axis", node.get_attr_value('quantized_dimension'))
            z = ctx.make_const(utils.make_name("zero_point"), np.array(zp, dtype=np.uint8))
        else:
            axis = node.get_attr_value('quantized_dimension')
            utils.make_sure(axis is not None, "axis")
            z = ctx.make_const(utils.make_name("zero_point"), np.array(zp[0], dtype=np.uint8))
        s = ctx.make_const(utils.make_name("scale"), np.array(scale[0], dtype=np.float32))
        ctx.replace_inputs(node, [node.input[0], s.output[0], z.output[0]])


@tfl_op(["VFHonours:TFL_AVERAGE_POOL_2D"], tf_op="AvgPool")
class Honours:
    @classmethod
    def to_tf(cls, ctx, node, **kwargs):
        utils.make_sure(node.attr['fused_activation_function'].s == b'NONE', "no activation")
        for name, opts in (("strides", ["stride_h", "stride_w"]), ("ksize", ["filter_height", "filter_width"])):
            node.set_attr(name, cls.spread(node, opts))
        node.set_attr("data_format", "NHWC")

    @classmethod
    def spread(cls, node, opts):
        res = [1]
        for o in opts:
            res.append(node.get_attr_int(o))
            del node.attr[o]
        return res + [1]


@tfl_op(["VFPretends:TFL_AVERAGE_POOL_2D"], tf_op="AvgPool")
class Pretends:
    @classmethod
    def to_tf(cls, ctx, node, **kwargs):
        utils.make_sure(node.attr['fused_activation_function'].s == b'NONE', "no activation")
        node.set_attr("strides", [1, node.get_attr_int("stride_h"), node.get_attr_int("stride_w"), 1])
        node.set_attr("ksize", [1, node.get_attr_int("filter_height"), node.get_attr_int("filter_width"), 1])
        if node.get_attr_str("padding") == "SAME":
            node.set_attr("data_format", "NHWC")
        else:
            node.set_attr("data_format", "NHWC")
        del node.attr["padding"]
