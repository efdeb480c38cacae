"""Entry points for the abstract interpreter (never run)."""


def vf_run_optimizer(cls, graph):
    opt = cls()
    return opt.optimize(graph, 0)
