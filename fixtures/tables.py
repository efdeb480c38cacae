import numpy as np
import types
import flatbuffers
from onnx import TensorProto

good_types = {TensorProto.FLOAT: np.float32, TensorProto.DOUBLE: np.float64}
bad_types = {TensorProto.FLOAT: np.float64, TensorProto.DOUBLE: np.float64}
good_inverse = {v: k for k, v in good_types.items()}
good_ir = {1: 3, 2: 3, 3: 3, 4: 3, 5: 3, 6: 3, 7: 4, 8: 4, 9: 4, 10: 5, 11: 6}
bad_ir = {1: 3, 2: 3, 3: 3, 4: 3, 5: 3, 6: 3, 7: 4, 8: 4, 9: 4, 10: 5, 11: 7}
good_fold = {"Add": np.add, "Sub": np.subtract}
bad_fold = {"Add": np.add, "Sub": np.add}
NHWC_TO_NCHW = [0, 3, 1, 2]
NHWC_TO_NWHC = [0, 1, 2, 3]
good_numbers = types.SimpleNamespace(DT_FLOAT=1, DT_DOUBLE=2)
bad_numbers = types.SimpleNamespace(DT_FLOAT=1, DT_DOUBLE=3)
bad_enum = {"Padding": "MirrorPadMode", "Mode": "Padding"}


class Tensor(object):
    def Init(self, buf, pos):
        self._tab = flatbuffers.table.Table(buf, pos)

    def Type(self):         # bad: the slot of Buffer
        o = flatbuffers.number_types.UOffsetTFlags.py_type(self._tab.Offset(8))
        if o != 0:
            return self._tab.Get(flatbuffers.number_types.Int8Flags, o + self._tab.Pos)
        return 0

    def Buffer(self):       # good: another spelling
        tab = self._tab
        o = flatbuffers.number_types.UOffsetTFlags.py_type(tab.Offset(8))
        if not o:
            return 0
        where = tab.Pos + o
        return tab.Get(flatbuffers.number_types.Uint32Flags, where)


bad_subgraphs = ["ThenSubgraphIndex", "ElseSubgraphIndex"]
