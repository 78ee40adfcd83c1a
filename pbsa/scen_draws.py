""" Requests that leave nothing to chance take no draw from the generator.

The clients are those of the other modules that ask for given values, ordered values, defaults or fixed
deltas; what is judged here is only whether any path of theirs draws.
"""
import importlib
import re

from .harness import Scenario
from .values import AbsExc

# module -> constructs whose clients ask for nothing random
FIXED = [
    ('scen_pscales', r''), ('scen_pd', r''), ('scen_cond', r''), ('scen_comb', r''), ('scen_sum', r''),
    ('scen_index', r''), ('scen_quant', r''), ('scen_remarg', r''), ('scen_serial', r''),
    ('scen_expression', r''), ('scen_functional', r''), ('scen_graph', r''),
    ('scen_variable', r'^Variable\.evaluate .*(\{[1-9]\d*\})|^Variable (float|int|bool|none|infer) |'
                      r'^(Variable|RV) derived'),
    ('scen_rv', r'__call__|^RV\.step (uniform|matrix (bool|int|pair)|symmetric)|set_prob|vset default|naming|^uniform_prob'),
    ('scen_field', r'^(RF|SD)\.(__call__|set_prob)(?!.*sampled)'),
    ('scen_process', r'step given|by delta|eval_delta (scalar|dict|Delta)|SP\.__call__'),
    ('scen_rf', r'default (delta|given)|iid by the function|refusals|Field\.__call__'),
    ('scen_dist', r'__call__'),
]


def watched(s):
  def client(obs):
    I = obs.I
    n = len(I.ctx.events)
    try:
      s.client(obs)
    except (AbsExc, KeyError, IndexError, TypeError, AttributeError, ValueError, ZeroDivisionError):
      pass                               # judged by the property the client belongs to
    del obs.out[:]
    ev = [e for e in I.ctx.events[n:] if e[0] == 'rng']
    site = f"{ev[0][-1]}" if ev else None
    obs.add('draws', not ev, f"{len(ev)} draws taken" + (f", first: {ev[0][1]}" if ev else ''), site)
  w = Scenario('draws', s.construct, client, s.max_paths)
  return w


def scenarios(tier):
  out = []
  for mod, pat in FIXED:
    m = importlib.import_module('pbsa.' + mod)
    ss = [s for s in m.scenarios(tier) if re.search(pat, s.construct)]
    if mod not in ('scen_process', 'scen_variable', 'scen_rv'):
      step = max(1, len(ss) // (150 if tier == 'quick' else 600))
      ss = ss[::step]
    out += [watched(s) for s in ss]
  return out
