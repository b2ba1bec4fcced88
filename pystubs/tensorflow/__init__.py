"""Stand-in for tensorflow: arrays are numpy's, estimators only record what they
are given (in `log`)."""
import types

import numpy as np

log = []
Tensor = np.ndarray
float32, float64, int32 = np.float32, np.float64, np.int32
newaxis = None
maximum, minimum, clip_by_value, shape, reduce_mean = np.maximum, np.minimum, np.clip, np.shape, np.mean


class Unsupported(Exception):
    pass


class Any:
    """A value nothing is done with."""

    def __init__(self, name="tf", kw=None, args=()):
        self.name, self.kw, self.args = name, kw or {}, args

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Any(self.name + "." + n)

    def __call__(self, *a, **kw):
        return Any(self.name, kw, a)


def cast(x, dtype):
    return np.asarray(x, dtype)


def constant(v, dtype=None, shape=None, name=None):
    return np.full(shape or (), v, dtype)


def convert_to_tensor(v, dtype=None):
    return np.asarray(v, dtype)


random = types.SimpleNamespace(uniform=lambda shape, minval=0, maxval=1, **kw: np.random.uniform(minval, maxval, size=shape).astype(np.float32),
                               set_seed=lambda s: None)
debugging = types.SimpleNamespace(assert_shapes=lambda *a, **kw: None)
keras = Any("keras")
feature_column = Any("feature_column")


class Estimator:
    def __init__(self, **kw):
        self.kw = kw
        self.model_dir = kw.get("model_dir") or "model"
        log.append(("estimator", self, kw))

    def train(self, input_fn=None, **kw):
        log.append(("train", input_fn, input_fn()))

    def evaluate(self, input_fn=None, **kw):
        log.append(("evaluate", input_fn, input_fn()))
        return {}

    def export_saved_model(self, d, fn, **kw):
        log.append(("export", d, fn))
        return d


estimator = types.SimpleNamespace(Estimator=Estimator, export=Any("export"))


class _Converter:
    def __init__(self, path):
        self.path, self.target_spec = path, types.SimpleNamespace(supported_ops=["TFLITE_BUILTINS"])

    @classmethod
    def from_saved_model(cls, path, **kw):
        return cls(path)

    def convert(self):
        import os
        log.append(("convert", self.path, list(self.target_spec.supported_ops)))
        with open(os.path.join(self.path, "saved_model.pb"), "rb") as f:
            return b"TFL3" + f.read()


lite = types.SimpleNamespace(TFLiteConverter=_Converter, OpsSet=types.SimpleNamespace(TFLITE_BUILTINS="TFLITE_BUILTINS", SELECT_TF_OPS="SELECT_TF_OPS"))


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise Unsupported("tensorflow." + name)
