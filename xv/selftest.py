"""Setup: positive and negative examples for the analysis engine itself (no repository code involved)."""
import sys
from .trace import *


def main():
    A = sds((4,), np.float32)
    # provenance must see through data movement
    R = analyze(lambda x: jnp.roll(x[::-1], 1)[jnp.array([0, 2])], (A,), ["x"])
    got = [G.show(n) for n in R.flat[0]]
    assert got == ["x[0]", "x[2]"], got
    # selections are canonical, comparison negation included
    R = analyze(lambda i, x, y: (jnp.where(i < 3, x, y), jnp.where(i >= 3, y, x), jnp.where(i <= 3, x, y)), (sds((), np.int32), A, A), ["i", "x", "y"])
    a, b, c = R.flat
    assert all(p is q for p, q in zip(a, b)) and all(p is not q for p, q in zip(a, c))
    # stable sort keeps key/value pairing, separate unstable sorts do not
    R = analyze(lambda k, v: (*jax.lax.sort((k, v), num_keys=1, is_stable=True), v[jnp.argsort(k, stable=True)]), (A, A), ["k", "v"])
    assert all(p is q for p, q in zip(R.flat[1], R.flat[2]))
    # reducers, contractions, windows and top-k agree with the array library on known inputs
    B = np.array([[3, 200, 7, 9], [250, 1, 0, 200], [5, 5, 6, 4]], np.uint8)
    lax = jax.lax
    for f in (lambda x: lax.reduce(x, jnp.uint8(7), lax.bitwise_xor, (0,)), lambda x: lax.reduce(x, jnp.uint8(7), lambda a, b: (a * 2 + b).astype(jnp.uint8), (1,)), lambda x: jnp.dot(x, x.T), lambda x: jnp.einsum("ij,ij->i", x, x),
              lambda x: jnp.einsum("ij,ij->j", x.astype(jnp.int32), x.astype(jnp.int32)), lambda x: lax.reduce_window(x, jnp.uint8(1), lax.add, (2, 2), (1, 2), "SAME"), lambda x: lax.reduce_window(x, jnp.uint8(0), lax.max, (1, 3), (1, 1), "VALID"),
              lambda x: lax.top_k(x, 2), lambda x: lax.associative_scan(jnp.minimum, x, axis=1), lambda x: lax.scan(lambda c, r: (c + r, c), jnp.zeros(4, jnp.uint8), x), lambda x: lax.map(lambda r: r[0] * 2, x)):
        R = analyze(f, (sds(B.shape, np.uint8),), ["x"], fixed={"x": B})
        S = analyze(f, (sds(B.shape, np.uint8),), ["x"])
        want = jax.tree_util.tree_leaves(f(jnp.asarray(B)))
        assert len(want) == len(R.flat), (len(want), len(R.flat))
        for g, w in zip(R.flat, want):
            assert tuple(g.shape) == w.shape and np.array_equal(np.asarray(g), np.asarray(w)), (g, w)
        assert [tuple(g.shape) for g in S.flat] == [w.shape for w in want]
    # a loop with one predicate per lane: each lane stops on its own
    f = jax.vmap(lambda n, x: lax.while_loop(lambda s: s[0] < n, lambda s: (s[0] + 1, s[1] * 2), (jnp.int32(0), x))[1])
    R = analyze(f, (sds((3,), np.int32), sds((3,), np.int32)), ["n", "x"], fixed={"n": np.array([0, 3, 1], np.int32), "x": np.array([5, 6, 7], np.int32)})
    assert np.asarray(R.flat[0]).tolist() == [5, 48, 14], R.flat
    print("engine self-test passed")
    return 0


if __name__ == "__main__":
    sys.exit(main())
