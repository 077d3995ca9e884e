"""Writes tools/literals.json: the numeric constants of /repo's current source (see rt/world.py, mined)."""
import os, sys, json
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "rt"))
import world
json.dump(world.literals(sys.argv[1] if len(sys.argv) > 1 else "/repo"), open(os.path.join(HERE, "literals.json"), "w"), indent=0, sort_keys=True)
