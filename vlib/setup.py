"""setup: builds symex and the dependencies of every configuration"""
import sys

from . import build
from .props import PROPS

done = set()
for pid, p in PROPS.items():
    for feats in p.get("configs", [()]):
        if feats in done:
            continue
        done.add(feats)
        try:
            build.build(p["bin"], feats)
        except build.BuildError as e:
            print(e)
            sys.exit(1)
print("configurations built:", sorted(done))
