"""Wing-Gong linearizability check with memoisation."""


def check(history, init, apply, limit=400_000):
  """history: list of (inv, ret, op, result); ret may be None (pending).

  apply(state, op) -> (new_state, result).  States must be hashable.
  Returns True / False / None (gave up).
  """
  n = len(history)
  if n == 0:
    return True
  full = 0
  for i, (_, ret, _, _) in enumerate(history):
    if ret is not None:
      full |= 1 << i
  seen = set()
  stack = [(0, init)]
  work = 0
  while stack:
    mask, state = stack.pop()
    if mask & full == full:
      return True
    if (mask, state) in seen:
      continue
    seen.add((mask, state))
    work += 1
    if work > limit:
      return None
    # Earliest return among the pending ops bounds who can go next.
    bound = min((history[i][1] for i in range(n)
                 if not mask >> i & 1 and history[i][1] is not None),
                default=None)
    for i in range(n):
      if mask >> i & 1:
        continue
      inv, ret, op, res = history[i]
      if bound is not None and inv > bound:
        continue
      ns, r = apply(state, op)
      if ret is None or r == res:
        stack.append((mask | 1 << i, ns))
  return False
