import json


def cmd(prop, tier="quick"):
    for c in json.load(open("/verif/MANIFEST.json"))["checks"]:
        if c["property"] == prop:
            return c[tier + "_cmd"]
