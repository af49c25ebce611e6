"""Turns the state graph that TLC printed into scripts that visit every edge."""
import json, re
from collections import deque


def edges_of(out):
    es = []
    for line in out.splitlines():
        if 'EDGE {' in line or 'EDGE [' in line:
            s = line[line.index('EDGE ') + 5:].rstrip()
            if s.endswith('"'):
                s = s[:-1]
            s = s.replace('\\"', '"').replace('\\\\', '\\')
            es.append(json.loads(s))
    return es


def walks(edges, maxlen, init=None, look=300):
    """Walks from the initial state that together cover every edge."""
    adj = {}
    for i, e in enumerate(edges):
        adj.setdefault(e['s'], []).append(i)
    init = init if init is not None else edges[0]['s']
    # shortest ways to every state
    parent, order, q = {init: None}, [init], deque([init])
    while q:
        x = q.popleft()
        for i in adj.get(x, []):
            d = edges[i]['d']
            if d not in parent:
                parent[d] = i
                order.append(d)
                q.append(d)
    # self loops first: they keep the walk where it is
    todo = {s: deque(sorted(v, key=lambda i: edges[i]['d'] != s)) for s, v in adj.items() if s in parent}
    seen = [False] * len(edges)
    left = sum(len(v) for v in todo.values())
    res = []

    def fresh(x):
        t = todo.get(x)
        while t and seen[t[0]]:
            t.popleft()
        return t

    def nearest(s):
        """Shortest path of edges from s to a state with an unvisited edge, not looking far."""
        prev, q = {s: None}, deque([s])
        while q:
            x = q.popleft()
            if fresh(x):
                path = []
                while prev[x] is not None:
                    i = prev[x]
                    path.append(i)
                    x = edges[i]['s']
                return path[::-1]
            if len(prev) > look:
                continue
            for i in adj.get(x, []):
                d = edges[i]['d']
                if d not in prev:
                    prev[d] = i
                    q.append(d)
        return None

    def tree(x):
        path = []
        while parent[x] is not None:
            path.append(parent[x])
            x = edges[parent[x]]['s']
        return path[::-1]

    def take(w, i):
        nonlocal left
        w.append(i)
        if not seen[i]:
            seen[i] = True
            left -= 1
        return edges[i]['d']

    # the farthest states first: the ways there cover the nearer ones
    for x in reversed(order):
        while fresh(x):
            w, s = [], init
            for i in tree(x):
                s = take(w, i)
            while len(w) < maxlen or s == x and fresh(x):
                p = nearest(s)
                if p is None or (len(w) + len(p) >= maxlen and s != x):
                    break
                for i in p:
                    s = take(w, i)
                s = take(w, fresh(s)[0])
            res.append([edges[i]['o'] for i in w])
    return res, left
