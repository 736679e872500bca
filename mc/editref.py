"""Reference transitions of model edits on (assignment, pinned features, pinned clusters)."""


class Rejected(Exception):
    """The edit must fail."""


def apply(state, op, known_features):
    """
    Returns (new state, result). `state` is (assignment, pf, pc); result None
    when the operation returns nothing of interest.
    """
    assignment, pf, pc = dict(state[0]), set(state[1]), set(state[2])
    name, args = op[0], op[1:]
    result = None
    if name == "delete_clusters":
        assignment = {f: k for f, k in assignment.items() if k not in set(args[0])}
    elif name == "delete_features":
        assignment = {f: k for f, k in assignment.items() if f not in set(args[0])}
    elif name == "merge_clusters":
        first = args[0][0]
        assignment = {
            f: (first if k in set(args[0]) else k) for f, k in assignment.items()
        }
        result = first
    elif name == "create_cluster_from_features":
        new = max([*assignment.values(), 0]) + 1
        for f in args[0]:
            if f not in known_features:
                raise Rejected()
            assignment[f] = new
        result = new
    elif name == "pin_features":
        ids, value = args
        for f in ids:
            if f in assignment:
                (pf.add if value else pf.discard)(f)
    elif name == "pin_clusters":
        ids, value = args
        for k in ids:
            if k in set(assignment.values()):
                (pc.add if value else pc.discard)(k)
    else:
        raise ValueError(name)
    pf &= set(assignment)
    pc &= set(assignment.values())
    return (assignment, pf, pc), result


def call(idx, op):
    if op[0].startswith("pin_") and op[2] is True and len(op[1]) != 1:
        # pinning is what is done when nothing is said
        return getattr(idx, op[0])(op[1])
    return getattr(idx, op[0])(*op[1:])


def operations(fs, out, clusters, absent_cluster, absent_feature):
    """The edit alphabet over the given feature and cluster ids."""
    f = list(fs)
    c = list(clusters)
    cs = [[], [c[0]], [c[-1]], [c[0], c[-1]], [absent_cluster], [c[1], c[1]], list(c)]
    fs_ = [[], [f[0]], [f[-1], f[0]], list(f), [out], [f[0], f[0]], [absent_feature], [f[1], out]]
    ops = []
    for x in cs:
        ops.append(("delete_clusters", x))
        for v in (True, False):
            ops.append(("pin_clusters", x, v))
    for x in fs_:
        ops.append(("delete_features", x))
        for v in (True, False):
            ops.append(("pin_features", x, v))
        ops.append(("create_cluster_from_features", x))
    ops.append(("create_cluster_from_features", [f[0], absent_feature]))
    for x in (
        [c[0]],
        [c[0], c[1]],
        [c[1], c[0]],
        [c[-1], c[0], c[1]],
        [c[0], c[-1], c[-1]],
        [c[0], c[0], c[1]],
        [c[0], absent_cluster],
        [absent_cluster, c[1]],
    ):
        ops.append(("merge_clusters", x))
    return ops
