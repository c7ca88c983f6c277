"""Single source for properties.jsonl and MANIFEST.json (run after editing)."""
import json, os, sys
ROOT = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, text, why, files, mech, tech=None, note=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]), tech=tech, note=note))


B = 'jajapy/base/'
prop('C01', 'MC and HMM log-likelihood is the exact weighted average over the trace set',
     'For every Markov chain or hidden Markov model and every set of traces, the reported log-likelihood equals the '
     'multiplicity-weighted mean of the logarithm of the total probability, over all hidden state paths, of producing each trace '
     '(a trace of n observations constrains n states). Traces the model cannot produce add nothing to the numerator but keep their '
     'weight in the denominator.',
     ['inputs'], 'every model structure (initial distribution, labelling/emission, transition row incl. zero entries and dead ends), '
     'every finite multiset of traces of any length and probability, including traces with unknown symbols',
     'Tests evaluate two or three hand-made traces on one model; the formula must hold for every model, trace and multiplicity.',
     [B + 'Model.py', B + 'Base_MC.py', 'jajapy/mc/MC.py', 'jajapy/hmm/HMM.py', B + 'Base_HMM.py'],
     [('forward recursion per trace', B + 'Model.py:_computeAlphas'), ('prefix-sharing forward matrix', B + 'Model.py:_logLikelihood_oneproc')])
prop('C02', 'MDP log-likelihood is the exact weighted average over the trace set',
     'For every MDP and every set of alternating observation/action traces, the reported log-likelihood equals the '
     'multiplicity-weighted mean of the logarithm of the probability of the observations given the actions, summed over all state paths. '
     'Impossible traces (unknown symbol, forbidden action, unreachable label) add nothing to the numerator but keep their weight in the denominator.',
     ['inputs'], 'every MDP (states, actions, partially enabled actions, labels) and every finite multiset of action/observation traces',
     'One model and three traces are tested; prefix sharing and unavailable actions interact in ways only enumeration reaches.',
     ['jajapy/mdp/MDP.py', B + 'Model.py'],
     [('per-trace forward pass', 'jajapy/mdp/MDP.py:_computeAlphas'), ('prefix-sharing pass', 'jajapy/mdp/MDP.py:_logLikelihood_oneproc')])
prop('C03', 'GoHMM density and log-likelihood are exact',
     'For every Gaussian HMM the observation density of a state is the product of its per-dimension normal densities, and the log-likelihood '
     'of a set of vector traces is the multiplicity-weighted mean of the log of the path-summed density of each trace.',
     ['inputs'], 'every GoHMM (states, number of dimensions, means, deviations) and every multiset of real vector traces',
     'The GoHMM test module does not even import; nothing about this class is currently exercised.',
     ['jajapy/gohmm/GoHMM.py', B + 'Base_HMM.py', B + 'Model.py'],
     [('density', 'jajapy/gohmm/GoHMM.py:b_n'), ('forward recursion', B + 'Model.py:_computeAlphas')])
prop('C04', 'CTMC and PCTMC log-likelihood is exact for timed and untimed traces',
     'For every CTMC, and every fully instantiated parametric CTMC, the log-likelihood of timed traces is the weighted mean of the log of the '
     'path-summed density (rate times exponential survival for each dwell time), and that of untimed traces is the weighted mean of the log of the '
     'path probability in the embedded jump chain. A parametric CTMC and the plain CTMC with the same rates give the same value; impossible '
     'traces add nothing to the numerator but keep their weight.',
     ['inputs'], 'every CTMC/PCTMC (rates, self loops, absorbing states, shared parameters) and every multiset of timed or untimed traces',
     'Two traces on one CTMC are tested; PCTMC likelihood tests fail or are absent.',
     ['jajapy/ctmc/CTMC.py', 'jajapy/pctmc/PCTMC.py', B + 'Model.py', B + 'Parametric_Model.py'],
     [('timed forward pass', 'jajapy/ctmc/CTMC.py:_computeAlphas_timed'), ('timed forward pass', 'jajapy/pctmc/PCTMC.py:_computeAlphas_timed')])
prop('C05', 'Log-likelihood does not depend on workers, platform, order or history',
     'The value returned for a set of traces is the same for every number of worker processes, every completion order of the workers, the '
     'multi-process and single-process evaluation paths, every order of the traces, and every history of earlier queries. Evaluating never changes '
     'the model, nor which traces the set contains or their multiplicities.',
     ['schedules', 'histories', 'configurations'], 'all worker counts (including a single CPU machine), all completion orders, all permutations of the trace list, all short sequences of queries',
     'Tests call the two evaluation paths once each on a sorted single-trace set.',
     [B + 'Model.py', 'jajapy/mdp/MDP.py', 'jajapy/ctmc/CTMC.py', 'jajapy/pctmc/PCTMC.py'],
     [('task fan-out', B + 'Model.py:_logLikelihood_multiproc'), ('prefix sharing', B + 'Model.py:_logLikelihood_oneproc')])
prop('C06', 'One Baum-Welch round on MC and HMM is the exact EM re-estimation',
     'One learning round replaces the transition (and, for HMMs, emission and initial) probabilities by the expected hidden-state counts given '
     'the weighted training traces divided by their totals. States never visited keep their parameters, transitions and emissions that had '
     'probability zero stay zero, and every distribution still sums to one.',
     ['inputs'], 'every initial hypothesis and every training multiset the hypothesis can produce at least partly',
     'Tests compare one learned model on one data set; the update must be right for every hypothesis and data set.',
     [B + 'BW.py'], [('expected counts', B + 'BW.py:_processWork_MC,_processWork_HMM'), ('normalisation', B + 'BW.py:_update_MC,_update_HMM')])
prop('C07', 'One Baum-Welch round on an MDP is the exact EM re-estimation',
     'One learning round replaces each (state, action) distribution by the expected transition counts given the weighted training traces, '
     'normalised per state and action. State/action pairs never used keep their distribution, unavailable actions stay unavailable and zero transitions stay zero.',
     ['inputs'], 'every MDP hypothesis and every training multiset of action/observation traces',
     'Only one data set is tested.',
     [B + 'BW.py'], [('expected counts', B + 'BW.py:_processWork_MDP'), ('normalisation', B + 'BW.py:_update_MDP')])
prop('C08', 'One Baum-Welch round on a CTMC is the exact EM re-estimation of rates',
     'With timed traces, one learning round sets every non-fixed rate to (expected number of jumps) / (expected time spent) given the weighted '
     'traces; with untimed traces the jump probabilities become the expected-count ratios. Rates marked as fixed, and all rates leaving a state that is never '
     'visited, are unchanged.',
     ['inputs'], 'every CTMC hypothesis, timed and untimed training multisets, every fixed-rate mask',
     'Only one timed data set without fixed rates is tested.',
     [B + 'BW.py'], [('expected counts/time', B + 'BW.py:_processWork_CTMC'), ('rate update', B + 'BW.py:_update_CTMC')])
prop('C09', 'One Baum-Welch round on a GoHMM is the exact EM re-estimation',
     'One learning round sets transition and initial probabilities to expected-count ratios and each mean to the posterior-weighted mean of the observed values; '
     'each standard deviation becomes the square root of the posterior-weighted mean squared distance to the mean of the hypothesis being updated. States never visited keep all their parameters.',
     ['inputs'], 'every GoHMM hypothesis and every multiset of vector traces',
     'The GoHMM test module does not import.',
     [B + 'BW.py'], [('posterior sums', B + 'BW.py:_processWork_GoHMM'), ('update', B + 'BW.py:_update_GoHMM')])
prop('C10', 'Parametric CTMC learning updates exactly the requested parameters, consistently',
     'Every round of parametric CTMC learning changes only the parameters that were asked for (and constants only when constant updates are enabled), '
     'never lowers the likelihood of the training traces, and gives a parameter that is alone in its transitions its maximum-likelihood value given the expected jump counts and sojourn times. '
     'All transitions sharing a parameter keep evaluating their expression at the same common value.',
     ['inputs', 'configurations'], 'every small PCTMC whose rates are constants or monomials of the parameters (the form the update rules are defined for), every subset of parameters to learn, timed and untimed traces',
     'The PCTMC learning test fails on the base revision.',
     [B + 'BW.py', 'jajapy/pctmc/PCTMC.py'], [('parameter classes', B + 'BW.py:_sortParameters'), ('update', B + 'BW.py:_update_PCTMC')])
prop('C11', 'The learning loop ascends, stops when promised and reports what it did',
     'Learning runs at most the requested number of rounds, stops at the first round whose likelihood gain is below the threshold and never earlier, and the training '
     'likelihood never decreases from one round to the next. The reported round count and training log-likelihood (of the hypothesis entering the last round) are exact, '
     'and the model returned is the one written to the requested output file.',
     ['inputs', 'configurations', 'histories'], 'every hypothesis, training set, threshold and iteration bound; learning k then m rounds equals learning k+m rounds',
     'Tests only look at the final model of one run.',
     [B + 'BW.py'], [('loop', B + 'BW.py:_bw'), ('entry', B + 'BW.py:fit')])
prop('C12', 'Learning does not depend on workers, completion order or data representation',
     'The learned model and reported data are the same for every number of worker processes (including one) and every completion order, for a training set given as a '
     'list of traces, an array or a set with multiplicities, for any order of the traces, and for a learner object already used for another model or kind. Traces the hypothesis cannot produce are ignored in every configuration, and learning never changes the training set.',
     ['schedules', 'configurations', 'inputs'], 'all worker counts, completion orders, permutations and representations of the same training multiset',
     'Tests run a single configuration.',
     [B + 'BW.py', B + 'Set.py'], [('task fan-out', B + 'BW.py:_runProcesses'), ('normalising input', B + 'BW.py:_getTrainingSet')])
prop('C13', 'A trace set behaves as a multiset under every sequence of operations',
     'Through any sequence of building, merging, sorting, listing, saving and loading, a set contains exactly the traces put in with exactly their multiplicities, '
     'its alphabet and action list are exactly the symbols occurring in it, and equality holds exactly when type and multiplicities agree regardless of order. '
     'Merging sets of different kinds is refused and leaves both unchanged; merging never changes the set merged in.',
     ['histories', 'inputs'], 'all operation sequences up to a depth over small trace universes of every trace kind',
     'Tests merge two generated sets once and compare after one save/load.',
     [B + 'Set.py'], [('merge', B + 'Set.py:addSet'), ('dedup', B + 'Set.py:setFromList'), ('equality', B + 'Set.py:isEqual')])
prop('C14', 'Saving then loading any native model gives back the same model',
     'For every model of every kind, saving it to a text file and loading it back yields a model with bit-identical name, labels, initial distribution, '
     'transition and emission parameters, symbolic expressions and parameter values. Saving does not alter the model, overwriting an existing file leaves no trace of the old content, '
     'and loading a file of another model kind is refused rather than silently misread.',
     ['inputs'], 'every model of the six kinds incl. extreme probabilities, many states, quotes/spaces/unicode in labels',
     'One model per kind is saved and only its printed form (5 decimals) compared.',
     ['jajapy/mc/MC.py', 'jajapy/mdp/MDP.py', 'jajapy/hmm/HMM.py', 'jajapy/gohmm/GoHMM.py', 'jajapy/ctmc/CTMC.py', 'jajapy/pctmc/PCTMC.py', B + 'Model.py', B + 'Parametric_Model.py'],
     [('writer', B + 'Model.py:_save'), ('readers', 'loadMC, loadHMM, loadMDP, loadCTMC, loadGoHMM, loadPCTMC')])
prop('C15', 'Prism export and Storm conversion preserve the model',
     'Exporting any MC, CTMC, MDP or instantiated PCTMC to a Prism file and loading it back, or converting it to the Storm representation and back, yields a model '
     'with the same labelled transition structure (for Prism files: the reachable part, up to a renumbering of the states): same labels, initial state, and the same probabilities or rates for every state, action and successor. '
     'Labels, actions and parameters must be Prism identifiers; the model can have any name.',
     ['inputs'], 'every model with one initial state, incl. absorbing states, partially enabled actions, self loops and shared labels',
     'Tests convert one model per kind.',
     ['jajapy/with_stormpy/model_converter.py', B + 'Base_MC.py', 'jajapy/mdp/MDP.py', 'jajapy/ctmc/CTMC.py', 'jajapy/pctmc/PCTMC.py'],
     [('to Storm', 'jajapy/with_stormpy/model_converter.py'), ('Prism text', B + 'Base_MC.py:_savePrism')])
prop('C16', 'Simulated MC, HMM and GoHMM traces follow exactly the model distribution',
     'Resolving every random choice, each trace is generated with exactly the probability the model gives it and no impossible trace is ever generated; trace lengths are '
     'exactly those requested (n steps, a list of lengths, or minimum plus geometric). A generated set contains exactly the requested number of traces, repeated traces being counted.',
     ['inputs', 'schedules'], 'every outcome of every random draw, for every small model, length specification and set size',
     'Tests draw a few random traces and only check lengths/types.',
     [B + 'Model.py', B + 'tools.py', 'jajapy/mc/MC.py', 'jajapy/hmm/HMM.py', 'jajapy/gohmm/GoHMM.py', B + 'Base_HMM.py'],
     [('categorical draw', B + 'tools.py:resolveRandom'), ('run', B + 'Model.py:run')])
prop('C17', 'MDP simulation obeys the scheduler and the model',
     'Under any scheduler, a simulated MDP trace alternates observations and actions, uses only actions available in the visited state, and occurs with exactly the probability '
     'given by scheduler choices (restricted to available actions) and transition probabilities. A finite-memory scheduler always is in the memory state its transition table assigns '
     'to the observations received since the last reset, and reports the action probabilities of that state.',
     ['inputs', 'schedules', 'histories'], 'every outcome of every random draw for small MDPs and schedulers; all observation histories up to a depth',
     'Only the uniform scheduler is tested and only for support.',
     ['jajapy/mdp/MDP.py', 'jajapy/mdp/Scheduler.py'], [('run', 'jajapy/mdp/MDP.py:run'), ('memory', 'jajapy/mdp/Scheduler.py:FiniteMemoryScheduler')])
prop('C18', 'Simulated CTMC and PCTMC traces follow the exponential race exactly',
     'In every state the next state is the winner of the race of independent exponential clocks with the transition rates, the dwell time is the winning time, and a transition with rate zero '
     'never fires, whatever the magnitude of the rates. Untimed and timed simulations visit the same states for the same random choices, and traces have the requested number of steps.',
     ['inputs', 'schedules'], 'every outcome of every random draw on a grid, for rates over many orders of magnitude',
     'Tests only check types of generated traces.',
     ['jajapy/ctmc/CTMC.py', 'jajapy/pctmc/PCTMC.py', B + 'Parametric_Model.py'], [('race', 'jajapy/ctmc/CTMC.py:next'), ('race', 'jajapy/pctmc/PCTMC.py:next')])
prop('C19', 'Alergia returns the frequency automaton its merge rule prescribes',
     'For every set of training traces Alergia returns a deterministic Markov chain: each state has at most one successor per label, probabilities are the relative frequencies of the training '
     'data (so they sum to one), and the likelihood of every training trace is positive. The result equals that of the published state-merging procedure with the Hoeffding compatibility test, '
     'depends only on the multiset of traces, and does not modify it; with the strictest setting (bound zero) two states of the frequency prefix tree which both have successors are never merged.',
     ['inputs'], 'every small multiset of traces and compatibility parameter',
     'One data set is compared with a recorded output.',
     ['jajapy/mc/Alergia.py', B + 'tools.py'], [('merge/fold', 'jajapy/mc/Alergia.py'), ('compatibility', B + 'tools.py:hoeffdingBound')])
prop('C20', 'IOAlergia returns the input-output frequency automaton its merge rule prescribes',
     'For every set of alternating observation/action traces IOAlergia returns a deterministic MDP whose probabilities are relative frequencies per state and action, so every used action '
     'distribution sums to one, unused actions are unavailable, and every training trace has positive likelihood. The result equals that of the published merging procedure, depends only on the '
     'multiset of traces, and leaves it unmodified.',
     ['inputs'], 'every small multiset of action/observation traces and compatibility parameter',
     'One data set is tested.',
     ['jajapy/mdp/IOAlergia.py', B + 'tools.py'], [('prefix tree', 'jajapy/mdp/IOAlergia.py'), ('merge', 'jajapy/mdp/IOAlergia.py')])
prop('C21', 'Active learning accounts for its data and blends models as configured',
     'Active learning adds exactly the requested number of freshly sampled traces of the requested length per round to the training set it was given, samples them only through actions the system allows, asking, when it exploits, for the actions the current hypothesis has explored least on its training set, '
     'and after each round the hypothesis is the configured learning-rate blend of the previous and the newly fitted model (rate zero: the new model). Every intermediate hypothesis is a valid MDP over the same states and actions.',
     ['inputs', 'schedules', 'configurations'], 'every outcome of the random choices on a grid, learning-rate setting, rounds and batch size',
     'No test exercises active learning.',
     ['jajapy/mdp/Active_BW_MDP.py'], [('loop', 'jajapy/mdp/Active_BW_MDP.py:fit'), ('blend', 'jajapy/mdp/Active_BW_MDP.py:_mergeModels'), ('active sampling', 'jajapy/mdp/Active_BW_MDP.py:ActiveLearningScheduler')])
prop('C22', 'Composing two CTMCs gives the product automaton',
     'The synchronous composition of two CTMCs is the reachable product: unsynchronised transitions interleave with their own rate, synchronised transitions on the same action fire jointly at the product of the rates, '
     'labels pair up, and the initial distribution is the product of both. Each rate of the result is expressed through parameters whose values and declared positions match the components, and neither component is modified.',
     ['inputs'], 'every pair of small CTMCs with self loops, several initial states and synchronised actions',
     'One pair is tested.',
     ['jajapy/ctmc/CTMC.py'], [('composition', 'jajapy/ctmc/CTMC.py:synchronousCompositionCTMCs')])
prop('C23', 'Composing parametric CTMCs gives the parametric product automaton',
     'The composition of two or more parametric CTMCs is the reachable product with interleaved transitions keeping their symbolic rate, transitions synchronised by all components owning the action multiplying '
     'their rates, and equal parameter names identified. Parameter values known in any component are kept, the recorded positions of each parameter are exactly the transitions that mention it, and no component is modified.',
     ['inputs', 'histories'], 'every pair/triple of small PCTMCs with shared parameters, synchronised actions and self loops; repeated compositions',
     'No stable test covers PCTMC composition.',
     ['jajapy/pctmc/PCTMC.py'], [('composition', 'jajapy/pctmc/PCTMC.py:synchronousCompositionPCTMCs')])
prop('C24', 'Parameter instantiation is atomic, validated and consistently observed',
     'After any sequence of instantiation requests, every query (value, instantiated?, rate, exit rate, expected time) equals the symbolic expressions evaluated at the accepted assignments. A request that would make a '
     'transition rate negative is refused and changes nothing, an accepted one takes effect entirely, and random instantiation assigns valid values within its bounds to exactly the requested (by default the missing) parameters.',
     ['histories', 'inputs'], 'all sequences of instantiate/query operations up to a depth on small PCTMCs; every random draw on a grid',
     'The instantiation test is not stable on the base revision.',
     ['jajapy/pctmc/PCTMC.py', B + 'Parametric_Model.py'], [('instantiate', 'jajapy/pctmc/PCTMC.py:instantiate'), ('evaluation', B + 'Parametric_Model.py:evaluateTransition')])
prop('C25', 'Building a model from a transition list yields exactly that model or an error',
     'A model built from a list of transitions, labels and an initial state has exactly those transitions, labels and initial distribution, whatever the order of the list, and later models built with the same defaults or '
     'arguments are independent of it. Ill-formed descriptions (probabilities not summing to 0 or 1, reserved or missing labels, wrong initial size, negative deviation) raise an error instead of returning a model.',
     ['inputs', 'histories'], 'every permutation of every small transition list; every single-fault corruption of a valid description',
     'One valid description per class is built in tests.',
     ['jajapy/mc/MC.py', 'jajapy/hmm/HMM.py', 'jajapy/gohmm/GoHMM.py', 'jajapy/mdp/MDP.py', 'jajapy/ctmc/CTMC.py', 'jajapy/pctmc/PCTMC.py', B + 'tools.py'],
     [('builders', 'createMC, createHMM, createMDP, createCTMC, createGoHMM, createPCTMC'), ('validation', B + 'tools.py:checkProbabilities')])
prop('C26', 'Random model generators always return valid models and honour their options',
     'For every size, option and outcome of the random draws the generated model is valid: distributions sum to one, the requested states, labels and actions are present, and the options '
     '(initial distribution, determinism, self loops, exit-time and Gaussian bounds) are respected. A given seed always produces the same model.',
     ['inputs', 'configurations', 'schedules'], 'all sizes and options within bounds, all draw outcomes on a grid and extreme draws, a range of seeds',
     'Only two sizes of random MC are tested.',
     ['jajapy/mc/MC.py', 'jajapy/hmm/HMM.py', 'jajapy/gohmm/GoHMM.py', 'jajapy/mdp/MDP.py', 'jajapy/ctmc/CTMC.py', B + 'Base_MC.py', B + 'tools.py'],
     [('generators', '*_random'), ('random distributions', B + 'tools.py:randomProbabilities')])
prop('C27', 'Model queries agree with the model and with one another',
     'For every model, transition, observation, exit-rate, dwell-time, label, alphabet and action queries agree with the parameters the model was built from and with each other, '
     'symbols that do not exist have probability zero, and state numbers outside the model are rejected by every query that takes one (an HMM emission there is documented to have probability zero) while the states returned by a simulation step are accepted. Queries never modify the model, and deriving the untimed chain of a CTMC '
     'returns its jump probabilities while leaving the CTMC as it was.',
     ['inputs', 'histories'], 'every model of every kind in a bounded space, every query argument in and around its domain, all short query sequences',
     'Tests probe a handful of entries of one model per class.',
     [B + 'Model.py', B + 'Base_MC.py', B + 'Base_HMM.py', 'jajapy/mc/MC.py', 'jajapy/mdp/MDP.py', 'jajapy/hmm/HMM.py', 'jajapy/ctmc/CTMC.py', 'jajapy/pctmc/PCTMC.py'],
     [('queries', 'a, b, tau, l, e, lkl, expected_time, pi, getLabel, getAlphabet, getActions'), ('toMC', 'jajapy/ctmc/CTMC.py:toMC')])
prop('C28', 'Saving, copying and converting models is neutral in every pipeline',
     'Whatever is done with a model (learning, instantiating parameters, composing, simulating, querying, deriving the untimed chain), inserting a save-and-load, a pickling, a deep copy, a reconstruction '
     'from its public attributes or a conversion to Storm and back before, between or after these steps, or saving and loading the training sets, changes none of the answers of the final model, and none of these '
     'neutral steps modifies the model it is applied to.',
     ['inputs', 'histories'], 'every pipeline of a few active steps with every choice of neutral steps around them, for every kind of model',
     'Tests save and load a model and compare it; what happens when the loaded or copied model is learned, composed or simulated afterwards is never exercised.',
     [B + 'Model.py', B + 'Parametric_Model.py', B + 'BW.py', 'jajapy/mc/MC.py', 'jajapy/mdp/MDP.py', 'jajapy/hmm/HMM.py', 'jajapy/gohmm/GoHMM.py', 'jajapy/ctmc/CTMC.py', 'jajapy/pctmc/PCTMC.py', 'jajapy/with_stormpy/model_converter.py'],
     [('save and load', 'save, loadMC, loadHMM, loadMDP, loadGoHMM, loadCTMC, loadPCTMC, loadSet'), ('Storm conversion', 'jajapy/with_stormpy/model_converter.py'), ('learning, composition, instantiation', 'BW.fit, synchronousComposition*, instantiate')])

# ---------------------------------------------------------------------------
LEVELS = {}
NOTES = {}
TECH = {}
CLAIMED = None
exec(open(os.path.join(ROOT, 'claims.py')).read())


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            d = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
            f.write(json.dumps(d) + '\n')
    checks, na = [], []
    for p in P:
        i = p['id']
        if i in CLAIMED:
            checks.append(dict(property=i, quick_cmd='bash run.sh %s quick' % i, thorough_cmd='bash run.sh %s thorough' % i,
                               evidence_file='evidence/%s.json' % i,
                               technique=TECH.get(i, DEFAULT_TECH), level='model_checking', level_note=NOTES.get(i, DEFAULT_NOTE)))
        else:
            na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
    m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na, notes=MNOTES)
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)


main()
