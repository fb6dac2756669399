"""Published coefficient tables used by the specifications (JSON)."""
import json
import os
D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                 'specs', 'data')


def table(name):
    with open(os.path.join(D, name + '.json')) as f:
        return json.load(f)
