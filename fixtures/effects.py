"""Effects: bad_* modify what is not theirs or leave state behind, good_* do not."""
import os
from tensorflow.python.framework import tensor_util

SEEN = []
CACHE = {}
WRONG = {}
COUNT = 0
REGISTRY = {}


def register(name):
    def deco(f):
        REGISTRY[name] = f
        return f
    return deco


@register("a")
def registered(x):
    return x


class Holder:
    shared = []

    def __init__(self, items, other):
        self.items = items
        self.mine = list(other)
        self.n = 0

    def grow(self, x):
        self.items.append(x)

    def grow_mine(self, x):
        self.mine.append(x)

    def share(self, x):
        self.shared.append(x)


# ---- the caller's objects
def bad_item(options):
    options["a"] = 1


def bad_helper(options):
    note(options)


def note(d):
    d.update(a=1)


def bad_inner(model):
    for layer in model.layers:
        layer.name = "x"


def bad_element(lists):
    for x in list(lists):
        x.append(1)


def bad_in_place(names):
    names += ["a"]
    return names


def bad_kept(items, other):
    h = Holder(items, other)
    h.grow(1)


def bad_not_restored(model):
    old = model.call
    model.call = None
    work(model)
    model.call = old


def bad_late_try(model):
    old = model.call
    model.call = None
    work(model)
    try:
        work(model)
    finally:
        model.call = old


def bad_other_restored(model):
    old = model.call
    model.call = None
    try:
        work(model)
    finally:
        model.name = old


def bad_kwargs(**kwargs):
    takes(1, **kwargs)


def takes(n, names=None, **kwargs):
    names.append(n)


def good_copy(options):
    options = dict(options or {})
    options["a"] = 1
    return options


def good_restored(model):
    old = model.call
    model.call = None
    try:
        return work(model)
    finally:
        model.call = old


def good_restored_by_helper(model):
    old = swap(model, None)
    n = 0
    try:
        work(model)
    finally:
        swap(model, old)
    return n


def swap(model, to):
    old = model.call
    model.call = to
    return old


def take_out(model):
    saved = model.parts
    model.parts.pop(0)
    return saved


def bad_restored_alias(model):
    saved = take_out(model)
    try:
        work(model)
    finally:
        model.parts = saved


def take_out_copied(model):
    saved = list(model.parts)
    model.parts.pop(0)
    return saved


def good_restored_copy(model):
    saved = take_out_copied(model)
    try:
        work(model)
    finally:
        model.parts = saved


def good_own(names):
    names = [n for n in names]
    names.append("a")
    h = Holder([], names)
    h.grow(1)
    h.grow_mine(2)
    return names


def good_kwargs(opt, **kwargs):
    return takes(1, names=[], **kwargs)


def good_field_copy(items):
    h = Holder([], items)
    h.grow_mine(3)


def work(model):
    return model.outputs


# ---- what stays behind
def bad_global(x):
    SEEN.append(x)


def bad_default(x, acc=[]):
    acc.append(x)
    return acc


def bad_class(h):
    Holder([], []).share(1)


def bad_cache(a, b):
    if a not in WRONG:
        WRONG[a] = a + b
    return WRONG[a]


def bad_patch(f):
    tensor_util.make_tensor_proto = f


def bad_environ(v):
    os.environ["TF_CPP_MIN_LOG_LEVEL"] = v


def good_cache(a, b):
    if a not in CACHE:
        CACHE[a] = str(a)
    return CACHE[a] + b


def good_patch(f):
    old = tensor_util.make_tensor_proto
    tensor_util.make_tensor_proto = f
    try:
        return work(f)
    finally:
        tensor_util.make_tensor_proto = old


def good_counter(name):
    global COUNT
    COUNT += 1
    return "%s__%d" % (name, COUNT)


def bad_function_attribute(x):
    work.last = x
