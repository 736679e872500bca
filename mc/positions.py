"""Enumerated corpora of short token sequences, shared by the checks of positions."""

import itertools

from mc import kit


def sequences(alphabet, longest):
    for n in range(longest + 1):
        yield from itertools.product(alphabet, repeat=n)


def corpus_of(texts, titles=None, untitled=()):
    """Documents with a text, a title (reversed by default, none at all for some) and a set-valued field."""
    docs = {}
    for i, text in enumerate(texts):
        if i in untitled:
            docs[f"k{i}"] = {"text": list(text), "tag": {"a"}}
            continue
        title = list(reversed(text)) if titles is None else list(titles[i])
        docs[f"k{i}"] = {"text": list(text), "title": title, "tag": {"a"} if i % 2 else {"a", "t"}}
    return docs


def occurrences(values, wanted):
    return [i for i, v in enumerate(values) if v in wanted]


def passages(values, clauses, window):
    """[(start, end, count)] for one or two clauses of values."""
    if len(clauses) == 1:
        keep = occurrences(values, clauses[0])
    else:
        first, second = (occurrences(values, c) for c in clauses)
        keep = sorted(
            {p for p in first if any(abs(p - q) <= window for q in second)}
            | {q for q in second if any(abs(p - q) <= window for p in first)}
        )
    out = []
    for p in keep:
        if out and p - out[-1][1] <= window:
            start, _, count = out[-1]
            out[-1] = (start, p, count + 1)
        else:
            out.append((p, p, 1))
    return out


def sound(values, clauses, window, start, end, count):
    """Whether this may be a passage for these clauses, of any number."""
    at = [occurrences(values, c) for c in clauses]
    ends = all(any(p in found for found in at) and all(any(abs(p - q) <= window for q in found) for found in at) for p in (start, end))
    return 0 <= start <= end < len(values) and ends and 1 <= count <= end - start + 1


def together(values, clauses, window):
    """Positions of matches of all clauses that are all near each other."""
    for chosen in itertools.product(*(occurrences(values, c) for c in clauses)):
        if max(chosen) - min(chosen) <= window:
            yield from chosen


# Which of three documents have no title, in turn.
UNTITLED = [(), (0,), (1, 2), (0, 1, 2)]


def by_field(clauses, positional):
    """{field: [set of values per clause that has features in the field]}"""
    out = {}
    for clause in clauses:
        fields = {}
        for field, value in clause:
            fields.setdefault(field, set()).add(value)
        for field, values in fields.items():
            if field in positional:
                out.setdefault(field, []).append(values)
    return out


def collocations(docs, field, wanted, window):
    """({value: (within, total)}, query positions, window positions)"""
    within, total, query, covered = {}, {}, 0, 0
    for fields in docs.values():
        values = fields.get(field) or []
        if not isinstance(values, list):
            continue
        at = occurrences(values, wanted)
        near = {
            p for p in range(len(values)) if any(abs(p - q) <= window for q in at)
        }
        query += len(at)
        covered += len(near)
        for p, v in enumerate(values):
            if v not in wanted:
                total[v] = total.get(v, 0) + 1
                within[v] = within.get(v, 0) + (p in near)
    return {v: (within[v], total[v]) for v in total}, query, covered


def stored_positions(idx):
    """
    What the index says about positions, through passages of single features
    with no window: {field: {doc key: {position: {values}}}}
    """
    out = {}
    keys = kit.doc_keys(idx)
    positional = idx.positional_fields
    for fid, (field, value) in kit.features_of(idx).items():
        if field not in positional:
            continue
        for doc_id, found in idx.score_passages_dnf([[fid]], 0).items():
            for f, start, end, count in found:
                if f != field or start != end or count != 1:
                    out.setdefault("odd", []).append((f, start, end, count))
                out.setdefault(field, {}).setdefault(keys.get(doc_id, doc_id), {}).setdefault(
                    start, set()
                ).add(value)
    return out


def wanted_positions(docs):
    out = {}
    for key, fields in docs.items():
        for field, values in fields.items():
            if isinstance(values, list):
                for p, v in enumerate(values):
                    out.setdefault(field, {}).setdefault(key, {}).setdefault(p, set()).add(v)
    return out
