"""Running the public pipeline API on data with controlled batching."""

import collections
import contextlib
import shutil
import tempfile
import uuid

import apache_beam as beam
import numpy as np
import pyarrow as pa
import tensorflow as tf
import tensorflow_transform as tft
import tensorflow_transform.beam as tft_beam
from tensorflow_transform.tf_metadata import dataset_metadata, schema_utils
from tfx_bsl.tfxio import tensor_adapter, tensor_representation_util

from harness import fastbeam

fastbeam.install()
RUNNER = "FnApiRunner"
OUT = collections.defaultdict(list)


def _collect(x, tag):
    OUT[tag].append(x)
    return x


def sink(pcoll, tag, label):
    return pcoll | label >> beam.Map(_collect, tag)


def pipeline():
    return beam.Pipeline(runner=RUNNER)


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="verif_pipe_", dir=".")
    import os
    try:
        yield os.path.abspath(d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def metadata(spec, domains=None):
    return dataset_metadata.DatasetMetadata.from_feature_spec(spec, domains)


_PA = {tf.int64: pa.int64(), tf.float32: pa.float32(), tf.string: pa.binary()}


def _pa_type(f):
    if isinstance(f, tf.io.RaggedFeature):
        t = pa.large_list(_PA[f.dtype])
        return t
    return pa.large_list(_PA[f.dtype])


def columns(spec):
    """Arrow column names and types of a feature spec."""
    cols = {}
    for k, f in spec.items():
        if isinstance(f, tf.io.SparseFeature):
            idx = f.index_key if isinstance(f.index_key, (list, tuple)) else [f.index_key]
            for i in idx:
                cols[i] = pa.large_list(pa.int64())
            cols[f.value_key] = pa.large_list(_PA[f.dtype])
        elif isinstance(f, tf.io.RaggedFeature):
            cols[f.value_key or k] = pa.large_list(_PA[f.dtype])
            for p in f.partitions:
                if isinstance(p, tf.io.RaggedFeature.RowLengths):
                    cols[p.key] = pa.large_list(pa.int64())
        else:
            cols[k] = pa.large_list(_PA[f.dtype])
    return cols


def _cell(v):
    if v is None:
        return None
    if isinstance(v, np.ndarray):
        v = v.tolist()
    if not isinstance(v, (list, tuple)):
        v = [v]
    flat = []

    def go(x):
        if isinstance(x, (list, tuple)):
            for y in x:
                go(y)
        else:
            flat.append(x.encode() if isinstance(x, str) else x)

    go(v)
    return flat


def record_batch(spec, rows):
    cols = columns(spec)
    arrays = [pa.array([_cell(r.get(c)) for r in rows], type=t)
              for c, t in cols.items()]
    return pa.RecordBatch.from_arrays(arrays, list(cols))


def adapter_config(spec):
    schema = schema_utils.schema_from_feature_spec(spec)
    reps = tensor_representation_util.InferTensorRepresentationsFromMixedSchema(schema)
    arrow = pa.schema([pa.field(c, t) for c, t in columns(spec).items()])
    return tensor_adapter.TensorAdapterConfig(arrow, reps)


def split(rows, sizes):
    out, k = [], 0
    for s in sizes:
        out.append(rows[k:k + s])
        k += s
    assert k == len(rows), (k, len(rows))
    return out


def pcoll(p, spec, batches, label):
    """A PCollection of one RecordBatch per batch, in order."""
    return p | label >> beam.Create(
        [record_batch(spec, b) for b in batches], reshuffle=False)


def to_str(x, sep=","):
    """A tensor as one string scalar (exact for float32)."""
    x = tf.reshape(x, [-1])
    if x.dtype != tf.string:
        if x.dtype.is_floating:
            x = tf.strings.as_string(x, precision=12, scientific=True)
        else:
            x = tf.strings.as_string(x)
    return tf.strings.reduce_join(x, separator=sep)


def per_row(value, like):
    """Repeats a scalar for each row of the batch `like` belongs to."""
    n = like.dense_shape[0] if isinstance(like, tf.SparseTensor) else tf.shape(like)[0]
    return tf.fill([tf.cast(n, tf.int32)], value)


def analyze_values(fn, spec, batches, force_tf_compat_v1=False, probe=None):
    """Values of analyzers: `fn(inputs)` returns name -> tensor of any shape.

    Analyses `batches` and reads the values off one transformed row.
    Returns name -> string (see to_str).
    """
    like = next(iter(spec))

    def pf(inputs):
        vals = fn(inputs)
        return {k: per_row(to_str(v), inputs[like]) for k, v in vals.items()}

    tag = uuid.uuid4().hex
    cfg = adapter_config(spec)
    with scratch() as d:
        with pipeline() as p:
            with tft_beam.Context(temp_dir=d, force_tf_compat_v1=force_tf_compat_v1):
                data = pcoll(p, spec, batches, "data")
                tfn = (data, cfg) | tft_beam.AnalyzeDataset(pf)
                one = pcoll(p, spec, [[probe or batches[0][0]]], "probe")
                res, _ = ((one, cfg), tfn) | tft_beam.TransformDataset()
                sink(res, tag, "sink")
    rows = OUT.pop(tag)
    assert len(rows) == 1, rows
    return {k: v.decode() if isinstance(v, bytes) else v for k, v in rows[0].items()}


def nums(s):
    return [float(x) for x in s.split(",")] if s else []
