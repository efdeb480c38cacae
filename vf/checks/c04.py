"""C04: converting an op keeps every output other ops may read."""
from .. import apirun

EXPLANATION = ("Abstract interpretation of every conversion handler for every opset: on each successful path that removes the converted node, every output "
               "it had must be produced again under its name, or its readers redirected (replace_all_inputs), or have been found to have no reader.")
RULES = {"output-lost": "a path that removes the converted node produces each of its outputs again or redirects the readers"}


def run(rep):
    apirun.run(rep, RULES, {"OutputLost": {"output-lost"}, "LeftAside": {"output-lost"}, "OutputKept": set(), "Clean": set()})
    rep.floor("outputs of removed nodes", 700)
    rep.assumptions += ["outputs only training reads (the gradient outputs of the cross entropy ops) and the outputs of queue and iterator ops, which have no "
                        "rendering, are exempt",
                        "a loop whose body decides which call gets the outputs is not decided"]
