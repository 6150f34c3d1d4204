"""setup_cmd: build the driver and the models, and compile the witnesses once."""
import os

from . import progs
from .common import BuildFailure, WITNESS, build_driver, dump, models_json

build_driver()
models_json()
for w in sorted(os.listdir(WITNESS)):
    if w.startswith("w_") and w not in progs.COMBOS.values():
        try:
            dump(w)
        except BuildFailure as e:
            print(f"note: witness {w} does not build\n{e.text[-1500:]}")
for w in progs.COMBOS.values():
    said = progs.build(w)[1]
    if said:
        print(f"note: {w} does not build: {said[0]['message']}")
print("ready")
