"""
A corpus and models well beyond the default sizes of batches, pages, cut-offs
and statement parameters, made by arithmetic (no random numbers): small scopes
cannot reach faults that need a thousand of something.
"""

import itertools

from mc import kit


def docs(n=2300, words=1500, shift=0):
    """Documents d0, d1, ...: short and long texts, a title, tags, an own value and a few blanks."""
    out = {}
    for i in range(shift, n + shift):
        if i % 97 == 5:
            out[f"d{i}"] = {"text": [], "tag": set()}
            continue
        length = 2600 if i == shift + 40 else (i * 7) % 23
        text = [f"w{(i * i + p * (i % 13 + 1) * 31 + p * p) % (words if p % 3 else 60)}" for p in range(length)]
        out[f"d{i}"] = {
            "text": text,
            "title": [f"t{(i + p) % 50}" for p in range(i % 4)],
            "tag": {i % 7, f"g{i % 40}"},
            "own": {i},
        }
    return out


def base(**kw):
    """The stored index over it, default batches, with positions."""
    return kit.template(
        "wide" + repr(sorted(kw.items())), lambda p: kit.build(p, docs(**kw), batch=1000)
    )


def model(features, sizes, first=0):
    """Clusters of the given sizes with ids first, first + 3, ... over the sorted features."""
    out, fs = {}, iter(sorted(features))
    for i, size in enumerate(sizes):
        for f in itertools.islice(fs, size):
            out[f] = first + 3 * i
    return out


# one very large cluster, some large, many small
SIZES = [1300, 260, 257, 120, 101] + [9] * 60 + [1] * 30
