CLAIMED = ['C%02d' % i for i in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28)]
NA = {}
DEFAULT_TECH = 'stateless model checking: exhaustive bounded enumeration of executions of the real code against a reference model'
DEFAULT_NOTE = ('Every execution inside the stated bounds is run on the real code and compared with an independent reference model; '
                'nothing is claimed outside the bounds. Trusts numpy/scipy/sympy arithmetic and the controlled environment seams.')
MNOTES = 'No hooks are needed in /repo: nondeterminism is controlled by replacing standard-library entry points before jajapy is imported.'

_S = 'stateless model checking of the real code: '
_R = ', each execution compared with an independent reference model'
TECH = {i: _S + t + _R for i, t in {
    'C01': 'exhaustive enumeration of small models x traces x evaluation paths x query histories',
    'C02': 'exhaustive enumeration of small MDPs x action/observation traces x evaluation paths x query histories',
    'C03': 'exhaustive enumeration of small Gaussian HMMs x traces x query histories',
    'C04': 'exhaustive enumeration of small CTMCs and parametric CTMCs x timed/untimed traces x evaluation paths x query histories',
    'C05': 'all completion orders of the worker processes, worker counts, platforms, input permutations and query histories, under a controlled scheduler',
    'C06': 'exhaustive enumeration of hypotheses x training multisets, hidden paths summed explicitly',
    'C07': 'exhaustive enumeration of hypotheses x training multisets, hidden paths summed explicitly',
    'C08': 'exhaustive enumeration of hypotheses x training multisets, hidden paths summed explicitly',
    'C09': 'exhaustive enumeration of hypotheses x training multisets, hidden paths summed explicitly',
    'C10': 'exhaustive enumeration of parametric structures, parameter subsets and rounds',
    'C11': 'all round-by-round histories, every stopping threshold and iteration bound between their steps, scripted random draws',
    'C12': 'all completion orders of the worker processes, worker counts, platforms, input orders and representations, learner reuse, under a controlled scheduler',
    'C13': 'breadth-first search over all operation histories of a training set up to a depth',
    'C14': 'exhaustive enumeration of models over palettes of awkward values and names, save/load histories',
    'C15': 'exhaustive enumeration of models over palettes of awkward values and names, through the real Storm and Prism paths',
    'C16': 'every answer to every random draw (exact weights), under a controlled random source',
    'C17': 'every answer to every random draw (exact weights) and every observation history of the schedulers, under a controlled random source',
    'C18': 'every answer to every random draw, under a controlled random source',
    'C19': 'exhaustive enumeration of training multisets x thresholds',
    'C20': 'exhaustive enumeration of training multisets x thresholds',
    'C21': 'every (periodic or complete) sequence of answers to the random draws of the learning loop, under a controlled random source',
    'C22': 'exhaustive enumeration of pairs of components, the product automaton explored explicitly',
    'C23': 'exhaustive enumeration of pairs, triples and quadruples of components, the symbolic product automaton explored explicitly',
    'C24': 'all sequences of instantiation requests up to a depth, every query after each of them',
    'C25': 'exhaustive enumeration of construction requests in every order, with every single fault',
    'C26': 'every answer to the random draws on a grid; real subprocesses for seeds and hash seeds',
    'C28': 'all pipelines of active steps with every choice of neutral steps around them, up to a depth',
    'C27': 'all query sequences up to a depth on every small model, with bit-exact snapshots',
}.items()}
