"""C08: converting one op leaves the other ops of the graph alone."""
from .. import apirun

EXPLANATION = ("Abstract interpretation of every conversion handler for every opset: edits of the graph whose target is a tensor or node of another op "
               "(an input of the converted op, or whatever produces it) are allowed only on paths that found it to have a single reader.")
RULES = {"foreign-redirect": "replace_all_inputs without ops and insert_*_node_on_output are not applied to a tensor of another op",
         "foreign-edit": "attributes, constant value, inputs or type of another op are not changed, unless the path knows its tensor has one reader",
         "foreign-remove": "another op is not removed, unless the path knows its tensor has one reader"}


def run(rep):
    apirun.run(rep, RULES, {"OthersInput": {"foreign-redirect"}, "OthersReaders": {"foreign-redirect"}, "OthersConst": {"foreign-edit"},
                            "OthersNode": {"foreign-edit"}, "OthersRemoved": {"foreign-remove"}, "OwnReader": set(), "Clean": set()})
    rep.floor("make_node", 4000)
    rep.floor("remove_node", 500)
    rep.assumptions += ["control flow ops (While, If) own the functions they inline, and are exempt",
                        "one reader of the constant is taken to be the converted op itself"]
