"""A stand-in for the graphviz package: writes down what is asked of it."""
import json
import os


class _Graph:
    def __init__(self, name=None, comment=None, filename=None, *a, graph_attr=None, node_attr=None, edge_attr=None, **kw):
        self.name = name
        self.filename = filename
        self.events = []
        self.base = {"graph": dict(graph_attr or {}), "node": dict(node_attr or {}), "edge": dict(edge_attr or {})}

    def attr(self, kw=None, _attributes=None, **attrs):
        self.events.append(["attr", kw or "graph", dict(_attributes or {}, **attrs)])

    def node(self, name, label=None, _attributes=None, **attrs):
        self.events.append(["node", name, label, dict(_attributes or {}, **attrs)])

    def edge(self, tail_name, head_name, label=None, _attributes=None, **attrs):
        self.events.append(["edge", tail_name, head_name, label, dict(_attributes or {}, **attrs)])

    def edges(self, tail_head_iter):
        for t, h in tail_head_iter:
            self.edge(t, h)

    def subgraph(self, graph=None, name=None, comment=None, graph_attr=None, node_attr=None, edge_attr=None, body=None):
        if graph is not None:
            self.events.append(["sub", graph.name, graph.events])
            return None
        g = type(self)(name=name, graph_attr=graph_attr, node_attr=node_attr, edge_attr=edge_attr)
        parent = self

        class Context:
            def __enter__(self):
                return g

            def __exit__(self, kind, *_):
                if kind is None:
                    parent.events.append(["sub", g.name, g.events])
        return Context()

    def _write(self, how, **kw):
        with open(os.environ["VIS_OUT"], "a", encoding="utf-8") as f:
            f.write(json.dumps({"how": how, "args": kw, "events": self.events, "base": self.base, "kind": type(self).__name__}) + "\n")

    def save(self, filename=None, directory=None, **kw):
        self._write("save", filename=filename or self.filename)

    def render(self, filename=None, directory=None, view=False, cleanup=False, format=None, **kw):
        self._write("render", filename=filename or self.filename, format=format or getattr(self, "format", None))


class Digraph(_Graph):
    pass


class Graph(_Graph):
    pass


class Source(_Graph):
    pass
