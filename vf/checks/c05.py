"""C05: handlers use the graph API within its preconditions, so conversion does not fail or go wrong half way."""
from .. import apirun

EXPLANATION = ("Abstract interpretation of every conversion handler for every opset, with the nodes, tensors and names of the graph as abstract objects; each "
               "call of the graph API is compared with the preconditions of that API in the abstract state it is reached in.")
RULES = {
    "use-after-remove": "nothing about a node (its shapes, dtypes, inputs) is asked after remove_node, which forgets it",
    "removed-twice": "a node is removed at most once",
    "count-mismatch": "make_node gets as many shapes and dtypes as outputs",
    "output-taken": "make_node claims an output name only when no node in the graph still produces it",
    "node-as-tensor": "tensor arguments are names, not nodes or lists",
    "tensor-as-node": "attributes of nodes are not taken of tensor names",
    "replace-mismatch": "replace_input names the input that is at that position",
    "shape-edited": "the list get_shape returns, which is the recorded shape, is not edited",
    "bad-argument": "graph API calls only use parameters those methods have",
}


def run(rep):
    one = {"AfterRemove": "use-after-remove", "Twice": "removed-twice", "Count": "count-mismatch", "OneShape": "count-mismatch", "Taken": "output-taken", "NodeTensor": "node-as-tensor",
           "TensorNode": "tensor-as-node", "Replace": "replace-mismatch", "Shape": "shape-edited", "BadArg": "bad-argument"}
    want = {k: {v} for k, v in one.items()}
    want.update({"Clean": set(), "OutputKept": set()})
    apirun.run(rep, RULES, want)
    rep.floor("make_node", 50000)
    rep.floor("remove_node", 1500)
