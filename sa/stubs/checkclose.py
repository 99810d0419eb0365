"""Semantics of jax._src.public_test_util.check_close (and of numpy's assert_allclose) as a
recorder: the pairs of arrays that are compared, and within which tolerance."""
import jax


class recorder:
    calls = []


def compared():
    out = recorder.calls
    recorder.calls = []
    return out


def check_close(xs, ys, atol=None, rtol=None, err_msg=""):
    def one(x, y):
        x, y = np.asarray(x), np.asarray(y)
        assert x.shape == y.shape
        recorder.calls.append((x, y, atol, rtol, err_msg))

    jax.tree_util.tree_map(one, xs, ys)


def assert_allclose(actual, desired, rtol=1e-7, atol=0, equal_nan=True, err_msg="", verbose=True, strict=False):
    x, y = np.asarray(actual), np.asarray(desired)
    np.broadcast_shapes(x.shape, y.shape)
    recorder.calls.append((x, y, atol, rtol, err_msg))
