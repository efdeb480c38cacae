"""Entry points for the option rules (never run)."""
from tf2onnx import utils, optimizer
from tf2onnx.tfonnx import process_tf_graph, tensorflow_onnx_mapping


def entry_fine(graph, opset=None, target=None, output_path=None, inputs_as_nchw=None, large_model=False):
    nchw = list(inputs_as_nchw) if inputs_as_nchw else []
    options = {"opset": opset, "target": target}
    g = process_tf_graph(graph, inputs_as_nchw=nchw, **options)
    g = optimizer.optimize_graph(g)
    model = g.make_model("x")
    if output_path:
        utils.save_protobuf(output_path, model)
    return model


def entry_dropped(graph, opset=None, target=None, output_path=None, inputs_as_nchw=None, large_model=False):
    g = process_tf_graph(graph, opset=opset, inputs_as_nchw=inputs_as_nchw)
    return optimizer.optimize_graph(g).make_model("x")


def entry_swapped(graph, opset=None, target=None, output_path=None, inputs_as_nchw=None, large_model=False):
    g = process_tf_graph(graph, opset=opset, target=inputs_as_nchw, inputs_as_nchw=target)
    return optimizer.optimize_graph(g).make_model("x")


def entry_sometimes(graph, opset=None, target=None, output_path=None, inputs_as_nchw=None, large_model=False):
    if large_model:
        target = None
    g = process_tf_graph(graph, opset=opset, target=target, inputs_as_nchw=inputs_as_nchw)
    return optimizer.optimize_graph(g).make_model("x")


def entry_changed(graph, opset=None, target=None, output_path=None, inputs_as_nchw=None, large_model=False):
    g = process_tf_graph(graph, opset=opset - 1, target=target, inputs_as_nchw=inputs_as_nchw)
    return optimizer.optimize_graph(g).make_model("x")


def nested_dropped(g, ops_mapping, initialized_tables=None, is_tflite=False, dequantize=False):
    for node in g.get_nodes():
        for b in node.get_body_graphs().values():
            tensorflow_onnx_mapping(b, ops_mapping, initialized_tables)
