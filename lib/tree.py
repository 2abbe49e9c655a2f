"""Walking the exported syntax trees: children, parents, calls, writes."""


def children(e):
    """direct sub-nodes of a node, in source order"""
    for k, v in e.items():
        if isinstance(v, dict):
            if 'k' in v or k in ('var', 'init', 'body'):
                yield v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict):
                    yield x


def walk(e):
    """all nodes below and including e, pre-order"""
    st = [e]
    while st:
        x = st.pop()
        if not isinstance(x, dict):
            continue
        yield x
        st.extend(reversed(list(children(x))))


def walk_parents(e, anc=()):
    """(node, ancestors) pre-order"""
    st = [(e, ())]
    while st:
        x, a = st.pop()
        if not isinstance(x, dict):
            continue
        yield x, a
        b = a + (x,)
        st.extend((c, b) for c in reversed(list(children(x))))
