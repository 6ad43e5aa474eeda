"""Writes vf/documented_settings.json: the documented domain and default of every setting at the pinned
commit (the settings documentation is generated from config_default.yaml).  Run by hand only."""
import json, os, subprocess, yaml
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
text = subprocess.check_output(["git", "-C", "/repo", "show", "2a80469:mimosa/inputdata/config/config_default.yaml"], text=True)
out = []
def walk(keys, node):
    if "type" in node and not isinstance(node["type"], dict):
        out.append({"path": keys, **{k: v for k, v in node.items() if k != "descr"}})
    else:
        for k, n in node.items():
            walk(keys + [k], n)
walk([], yaml.safe_load(text))
json.dump(out, open(os.path.join(ROOT, "vf", "documented_settings.json"), "w"), indent=1)
print(len(out))
