"""C06: an op's operand is the tensor it is connected to."""
from .. import apirun

EXPLANATION = ("Abstract interpretation of every conversion handler for every opset: a tensor handed to the graph or asked for its shape or type must not be "
               "'output k of whatever produces my input i', unless the path knows that producer to be an op with a single output.")
RULES = {"producer-output": "operands are the tensors the op reads, not a fixed output of the op producing them"}


def run(rep):
    p = {"producer-output"}
    apirun.run(rep, RULES, {"ProducerOutput": p, "ProducerOutputs": p, "ProducerType": p, "ProducerKnown": set(), "Clean": set()})
    rep.floor("make_node", 50000)
