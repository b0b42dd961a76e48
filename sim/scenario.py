"""Base class of the scenarios."""

from sim import core

REPO_ROOTS = ('/repo/py/',)


class Scenario:
  property = None
  trace_roots = REPO_ROOTS
  step_limit = 200_000
  step_limit_is_violation = False
  # Human description used in the evidence.
  real = ()
  stub = ()

  def setup(self):
    """Imports the code under test (once per interpreter)."""

  def make_sim(self, choices):
    sim = core.Sim(choices, step_limit=self.step_limit,
                   trace_roots=self.trace_roots)
    sim.choose_gap_mode()
    return sim

  def run(self, sim):
    raise NotImplementedError

  def after_run(self, pid):
    """Parent-side clean-up after the forked run `pid`."""
