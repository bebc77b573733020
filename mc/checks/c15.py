"""C15: reported iteration statistics, residuals and reconstructions are those
of the iterates."""
from mc.checks import c13, c14

PROPERTY = 'C15'
LEVEL = 'model_checking'
SCENARIO_LIMIT = 600
BOUNDS = {'quick': 'all ADMM and PGM solver classes of the catalogue, every '
                   'problem layout, all combinations of at most 3 '
                   'non-default options, 4 (ADMM) or 5 (PGM) iterations',
          'thorough': 'as quick with larger option axes and more layouts'}


def scenarios(tier):
    return c13.scenarios(tier) + [s for s in c14.scenarios(tier)
                                  if 'mom' not in s]


def run(scn, rec):
    if 'pgm' in scn:
        return c14.run(scn, rec, {'stat'})
    c13.run(scn, rec, {'stat'})
