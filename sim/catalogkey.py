import json


def key(x):
    return json.dumps(x, sort_keys=True)
