"""Writes MANIFEST.json from properties.jsonl and the checks that exist (texts taken from the check modules)."""
import ast, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "explicit-state enumeration of all bounded programs and call histories, real code against a reference model",
    "C02": "exhaustive fault injection: every fault point x context chain x handler level on the real code, with a reference model and canary runs",
    "C04": "stateless model checking of the real code under a controlled scheduler, all schedules within a preemption bound",
    "C05": "explicit-state enumeration of all bounded construction programs against a naming model",
    "C06": "explicit-state exploration of the key sequence and all bounded request programs against a model of the documented splitting",
    "C07": "explicit-state enumeration of all bounded programs with wrapped blocks; traces evaluated and replayed against the reference model",
    "C08": "explicit-state enumeration of all bounded control-flow programs; traces evaluated and replayed against the reference model",
}


def consts(path):
  out = {}
  for n in ast.parse(open(path).read()).body:
    if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("LEVEL", "BOUNDS", "ASSUMPTIONS", "TECHNIQUE"):
      out[n.targets[0].id] = ast.literal_eval(n.value)
  return out


def main():
  checks, na = [], []
  for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    path = os.path.join(HERE, "checks", p + ".py")
    if not os.path.exists(path):
      na.append(dict(property=p, reason="no check has been built for this property yet"))
      continue
    c = consts(path)
    note = "Exhaustive within: " + c["BOUNDS"]["quick"] + ". Thorough: " + c["BOUNDS"]["thorough"] + "."
    if c.get("ASSUMPTIONS"):
      note += " Assumes: " + "; ".join(c["ASSUMPTIONS"]) + "."
    checks.append(dict(property=p, quick_cmd="python3 mc/run.py " + p, thorough_cmd="VERIF_TIER=thorough python3 mc/run.py " + p,
                       technique=c.get("TECHNIQUE") or TECH[p], level=c["LEVEL"], level_note=note))
  m = dict(version=1, setup_cmd="python3 mc/setup.py", checks=checks, not_applicable=na,
           notes="The checks import haiku from /repo's working tree (pure Python, nothing to build). No hooks in /repo. KNOWN_FINDINGS.txt lists repaired and recorded defects.")
  with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")


main()
