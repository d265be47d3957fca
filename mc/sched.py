"""Controlled scheduler: runs threads one at a time, switching at chosen source lines.

A schedule is a list of (thread, steps): let that thread execute that many
lines of library code (None: until it ends). A thread that ends early passes on
to the next segment. Threads not finished when the list ends run to the end in
order. Only lines of files under `root` are scheduling points; everything
between two of them is atomic.
"""
import sys, threading

STUCK = 60.0


class Stuck(Exception):
  pass


class Run:
  def __init__(self, root, bodies, schedule, opcodes=False):
    self.root, self.bodies, self.opcodes = root, bodies, opcodes
    self.schedule = list(schedule)
    self.n = len(bodies)
    self.locks = [threading.Semaphore(0) for _ in bodies]
    self.done = [False] * self.n
    self.results = [None] * self.n
    self.steps = [0] * self.n
    self.left = 0
    self.files = {}
    self.finished = threading.Semaphore(0)
    self.switches = 0

  def advance(self, me):
    """Called by the running thread at the end of its segment; returns when it is scheduled again."""
    while True:
      if self.schedule:
        t, s = self.schedule.pop(0)
      else:
        t = next((i for i in range(self.n) if not self.done[i]), None)
        s = None
        if t is None:
          self.finished.release()
          return
      if self.done[t] or s == 0:
        continue
      break
    self.left = -1 if s is None else s
    if t != me:
      self.switches += 1
      self.locks[t].release()
      if me is not None and not self.done[me]:
        self.wait(me)

  def wait(self, me):
    if not self.locks[me].acquire(timeout=STUCK):
      raise Stuck()

  def tracer(self, me):
    files, root = self.files, self.root

    def local(frame, event, arg):
      if event == "line" or event == "opcode":
        if self.left == 0:
          self.advance(me)
        self.left -= 1
        self.steps[me] += 1
      return local

    def glob(frame, event, arg):
      code = frame.f_code
      ok = files.get(code)
      if ok is None:
        ok = files[code] = code.co_filename.startswith(root)
      if not ok:
        return None
      if self.opcodes:
        frame.f_trace_opcodes, frame.f_trace_lines = True, False
      return local
    return glob

  def thread(self, me):
    self.wait(me)
    try:
      sys.settrace(self.tracer(me))
      try:
        self.results[me] = ("ok", self.bodies[me]())
      finally:
        sys.settrace(None)
    except BaseException as e:         # noqa: the outcome of the thread
      self.results[me] = ("raised", type(e).__name__, str(e)[:300])
    self.done[me] = True
    self.advance(me)

  def go(self):
    ts = [threading.Thread(target=self.thread, args=(i,), daemon=True) for i in range(self.n)]
    for t in ts:
      t.start()
    self.advance(None)
    if not self.finished.acquire(timeout=STUCK):
      raise Stuck()
    for t in ts:
      t.join()
    return self.results
