"""The documented settings: domain and default of every setting, as documented at the pinned commit."""
import json
import os

PATH = os.path.join(os.path.dirname(os.path.abspath(__file__)), "documented_settings.json")


def settings(default_tree=None):
    """[(keys, node)]; settings that only the current tree knows come last, with their own node."""
    with open(PATH, encoding="utf8") as fh:
        out = [(d.pop("path"), d) for d in json.load(fh)]
    known = [k for k, _ in out]

    def walk(keys, node):
        if "type" in node and not isinstance(node["type"], dict):
            if keys not in known:
                out.append((keys, node))
        else:
            for k, n in node.items():
                walk(keys + [k], n)

    if default_tree is not None:
        walk([], default_tree)
    return out
