"""C10: nodes a conversion creates get names that differ for every instance of the op."""
from .. import apirun

EXPLANATION = ("Abstract interpretation of every conversion handler for every opset: the name of each node or constant created in the graph being converted "
               "is tracked as a term; a name built from constants only is the same for every instance of the op.")
RULES = {"fixed-name": "an explicit node name involves the converted node's name or make_name, unless the name was looked up first and found free"}


def run(rep):
    apirun.run(rep, RULES, {"FixedName": {"fixed-name"}, "Clean": set()})
    rep.floor("explicit names", 10000)
