"""Bounded exhaustive exploration: case dispatch, evidence, violations, replay.

A check is a module in checks/ with

  LEVEL      "model_checking" or "exploration"
  cases(tier) -> list of JSON-able cases: the complete bounded space, simplest first
  run_case(case, rec) -> explores one case on the real code; raises Violation
  RULE, ASSUMPTIONS, BOUNDS   texts for the evidence file

Every case is run; nothing is sampled. Cases are distributed over forked
workers. The counters in the evidence are measured by the workers.
"""
import collections, hashlib, importlib, json, os, signal, sys, time, traceback
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
  def __init__(self, msg, key=None):
    super().__init__(msg)
    self.key = key


def h64(obj):
  return int.from_bytes(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), "big")


class Rec:
  """Counters filled in by run_case."""

  def __init__(self, tier="quick", replay=False):
    self.tier = tier
    self.replay = replay
    self.states = set()
    self.counts = collections.Counter()
    self.nontrivial_keys = set()
    self.outcomes = set()
    self.samples = []

  def state(self, key):
    self.states.add(h64(key))

  def step(self, n=1):
    self.counts["transitions"] += n

  def trace(self, n=1):
    self.counts["traces"] += n

  def evals(self, n=1):
    self.counts["evaluations"] += n

  def nontrivial(self, key):
    self.nontrivial_keys.add(h64(key))

  def outcome(self, key):
    self.outcomes.add(h64(key))

  def count(self, name, n=1):
    self.counts[name] += n


def known_findings(prop):
  path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
  out = {}
  if os.path.exists(path):
    for line in open(path):
      line = line.strip()
      if line.startswith("known: property=%s " % prop):
        rest = line.split(" ", 2)[2]
        key, _, what = rest.partition(" ")
        assert key.startswith("key=")
        out[key[4:]] = what
  return out


def load(prop):
  sys.path.insert(0, VERIF)
  return importlib.import_module("checks." + prop)


def run_one(mod, case, rec):
  """Runs a case; returns None or (message, key)."""
  try:
    mod.run_case(case, rec)
    return None
  except Violation as e:
    return str(e), e.key
  except RecursionError as e:
    return "unexpected RecursionError", None
  except Exception:  # any unexpected exception of the code under test
    return "unexpected exception\n" + traceback.format_exc(limit=12), None


def _worker(mod, cases, tier, counter, stop, progress, wid, chunk, conn):
  rec = Rec(tier)
  bad = []
  nsamples = 3
  try:
    while not stop.value:
      with counter.get_lock():
        i0 = counter.value
        counter.value = i0 + chunk
      if i0 >= len(cases):
        break
      for i in range(i0, min(i0 + chunk, len(cases))):
        if stop.value:
          break
        progress[2 * wid] = i
        progress[2 * wid + 1] = time.time()
        r = run_one(mod, cases[i], rec)
        rec.counts["cases"] += 1
        if r is not None:
          bad.append((i, r[0], r[1]))
          if len(bad) > 200 or r[1] is None:
            stop.value = 1
            break
    progress[2 * wid + 1] = 0
    conn.send((rec.counts, rec.states, rec.nontrivial_keys, rec.outcomes, bad, rec.samples))
  except BaseException:
    try:
      conn.send(("error", traceback.format_exc()))
    except Exception:
      pass
  finally:
    conn.close()
    os._exit(0)


def main(prop, tier, replay=None, nproc=None):
  t0 = time.time()
  seed = int(os.environ.get("VERIF_SEED", "1") or 1)
  try:
    mod = load(prop)
  except Exception:
    # The library itself does not import or lacks a public name.
    return report_import_failure(prop, tier, seed, t0)
  if replay:
    obj = json.load(open(replay))
    if obj.get("case") is None:
      print(obj.get("message"))
      return 1
    r = run_one(mod, obj["case"], Rec(tier, replay=True))
    if r is None:
      print("replay: property held on this case")
      return 0
    print(r[0])
    print("VIOLATION property=%s replay=%s" % (prop, replay))
    return 1

  cases = json.loads(json.dumps(list(mod.cases(tier))))
  n = nproc or int(os.environ.get("VERIF_PROCS", "0")) or min(getattr(mod, "PROCS", 8), os.cpu_count() or 1)
  chunk = getattr(mod, "CHUNK", None) or max(1, min(64, len(cases) // (n * 8) or 1))
  case_timeout = getattr(mod, "CASE_TIMEOUT", 240)
  deadline = t0 + float(os.environ.get("VERIF_DEADLINE", "780" if tier == "quick" else "14400"))
  ctx = mp.get_context("fork")
  counter = ctx.Value("l", 0)
  stop = ctx.Value("i", 0)
  progress = ctx.Array("d", 2 * n, lock=False)
  procs = []
  sys.stdout.flush()
  for w in range(n):
    a, b = ctx.Pipe(duplex=False)
    p = ctx.Process(target=_worker, args=(mod, cases, tier, counter, stop, progress, w, chunk, b))
    p.start()
    b.close()
    procs.append([p, a, None])
  bad, hung, capped = [], [], False
  while any(x[2] is None for x in procs):
    for w, x in enumerate(procs):
      p, a, res = x
      if res is not None:
        continue
      if a.poll(0.05 if n < 4 else 0.02):
        try:
          x[2] = a.recv()
        except EOFError:
          x[2] = ("died", int(progress[2 * w]))
        continue
      started = progress[2 * w + 1]
      if started and time.time() - started > case_timeout:
        hung.append(int(progress[2 * w]))
        os.kill(p.pid, signal.SIGKILL)
        x[2] = ("hung", int(progress[2 * w]))
        stop.value = 1
    if time.time() > deadline and not stop.value:
      capped = True
      stop.value = 1
  total = Rec(tier)
  for p, a, res in procs:
    p.join()
    if res[0] in ("hung", "died"):
      what = "did not terminate within %ds" % case_timeout if res[0] == "hung" else "the process died"
      bad.append((res[1], what, None))
    elif res[0] == "error":
      bad.append((None, "worker error\n" + res[1], None))
    else:
      counts, states, nt, outcomes, b, samples = res
      total.counts.update(counts)
      total.states |= states
      total.nontrivial_keys |= nt
      total.outcomes |= outcomes
      bad.extend(b)
  known = known_findings(prop)
  seen_known, new = {}, []
  for i, msg, key in bad:
    if key is not None and key in known:
      seen_known.setdefault(key, i)
    else:
      new.append((i, msg, key))
  for key in sorted(seen_known):
    print("KNOWN-FINDING: property=%s %s" % (prop, known[key]))
  wall = time.time() - t0
  samples = [cases[i] for i in sorted({0, len(cases) // 2, len(cases) - 1}) if cases]
  cov = dict(cases=len(cases), cases_run=total.counts.get("cases", 0),
             exhaustive=not capped and not new and total.counts.get("cases", 0) == len(cases),
             bounds=mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS,
             distinct_outcomes=len(total.outcomes), samples=samples)
  if mod.LEVEL == "model_checking":
    cov.update(states=len(total.states), transitions=total.counts.get("transitions", 0),
               traces_validated_against_impl=total.counts.get("traces", 0))
  else:
    cov.update(evaluations=total.counts.get("evaluations", 0),
               distinct_nontrivial=len(total.nontrivial_keys), rule=mod.RULE)
  if hasattr(mod, "RULE"):
    cov["rule"] = mod.RULE
  for k, v in total.counts.items():
    if k not in ("transitions", "traces", "evaluations", "cases"):
      cov[k] = v
  if capped:
    cov["capped"] = "time cap reached; cases were taken in order and the first %d were covered" % total.counts["cases"]
  write_evidence(prop, tier, seed, mod.LEVEL, cov, getattr(mod, "ASSUMPTIONS", []), wall, len(new))
  print("%s %s: cases=%d/%d states=%d transitions=%d traces=%d evaluations=%d nontrivial=%d outcomes=%d wall=%.1fs%s" % (
      prop, tier, total.counts.get("cases", 0), len(cases), len(total.states), total.counts.get("transitions", 0),
      total.counts.get("traces", 0), total.counts.get("evaluations", 0), len(total.nontrivial_keys),
      len(total.outcomes), wall, " CAPPED" if capped else ""))
  if not new:
    return 0
  new.sort(key=lambda t: (t[0] is None, t[0] or 0))
  i, msg, key = new[0]
  path = write_replay(prop, cases[i] if i is not None else None, msg, key, tier)
  print(msg[:6000])
  print("case: " + (json.dumps(cases[i])[:3000] if i is not None else "none"))
  print("VIOLATION property=%s replay=%s" % (prop, path))
  return 1


def write_replay(prop, case, msg, key, tier):
  d = os.path.join(VERIF, "evidence", "replays")
  os.makedirs(d, exist_ok=True)
  path = os.path.join(d, prop + ".json")
  with open(path, "w") as f:
    json.dump(dict(property=prop, tier=tier, case=case, message=msg, key=key,
                   how="python3 /verif/mc/run.py %s --replay %s" % (prop, path)), f, indent=1)
  return path


def write_evidence(prop, tier, seed, level, cov, assumptions, wall, violations):
  d = os.path.join(VERIF, "evidence")
  os.makedirs(d, exist_ok=True)
  with open(os.path.join(d, prop + ".json"), "w") as f:
    json.dump(dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
                   assumptions=list(assumptions), wall_s=round(wall, 3), violations=violations), f, indent=1)


def report_import_failure(prop, tier, seed, t0):
  msg = "the library could not be loaded\n" + traceback.format_exc()
  path = write_replay(prop, None, msg, None, tier)
  write_evidence(prop, tier, seed, "other", dict(explanation=msg[-800:]), [], time.time() - t0, 1)
  print(msg)
  print("VIOLATION property=%s replay=%s" % (prop, path))
  return 1
