"""The table of properties; writes properties.jsonl and MANIFEST.json.

    python3 tools/props.py

Run by hand after an edit; no check runs it."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
TECH = 'deterministic simulation with fault injection: '


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), technique='', note='', na=None):
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files,
                          'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
                          'mechanism': [{'name': a, 'where': b} for a, b in mech],
                          'observe_at': list(observe), 'hook_needed': None},
              '_tech': technique, '_note': note, '_na': na})


prop('C01', 'match_run never returns a stale or foreign result',
     'Whatever match_run, set_option and clear_cache calls came before on this or any other Wilson object, including calls that '
     'raised or were interrupted, match_run(scale, eft, basis, sectors) returns what a fresh object with the same Wilson '
     'coefficients and the options that get_option currently reports would return. That is the composition the documentation describes: '
     'translate to the running basis, run, match at every threshold given by the options, run to the requested scale, translate to the '
     'requested basis, using the options in force. Results returned earlier and the input coefficients stay as they were.',
     ['histories', 'fault_sequences', 'inputs'],
     'all histories of match_run/set_option/clear_cache on one or two objects, with calls failing or interrupted anywhere',
     'The tests call match_run once or twice per object with fixed targets and never compare a result obtained after other calls, after a '
     'changed option or after a failed call with a fresh computation.',
     ['wilson/classes.py'],
     [('result cache keyed by EFT, scale, basis, sectors', 'wilson/classes.py:_get_from_cache/_set_cache'),
      ('cache invalidation on option change', 'wilson/classes.py:set_option/clear_cache')],
     [('_cache', 'results already computed', 'wilson/classes.py:Wilson')], ['return value of match_run'],
     'seeded operation histories with injected exceptions and library failures, against an executable reference pipeline')

prop('C02', 'Options are isolated per object and change all-or-nothing',
     'set_option changes exactly the named option of that one object, and set_default_option changes only what objects created afterwards '
     'start with. A call that is rejected, fails or is interrupted leaves every option with either its old value or, for the named option, '
     'the complete new value. The value passed by the caller is neither modified nor kept connected to the stored option.',
     ['histories', 'fault_sequences', 'inputs'],
     'all sequences of set_option, set_default_option and constructions over several objects, with valid and invalid values and interruptions anywhere',
     'The tests set a handful of valid options on one object; isolation between objects and atomicity of failed or interrupted changes '
     'are about histories and failure points they do not reach.',
     ['wilson/classes.py'],
     [('per-instance copy of the class defaults', 'wilson/classes.py:ConfigurableClass.__init__'),
      ('schema validation before update', 'wilson/classes.py:set_option/set_default_option')],
     [('_options/_default_options', 'current options and class defaults', 'wilson/classes.py:ConfigurableClass')],
     ['get_option on every object'],
     'seeded operation histories over several objects with injected exceptions, against a dictionary model')

prop('C03', 'The hash of a Wilson object identifies coefficients plus options',
     'Two points in the life of a Wilson object have the same hash exactly when its coefficients object and all of its options have the same '
     'values. In particular any effective option change changes the hash, changing it back restores it, the hash never depends on the order in '
     'which options were set, and computing, caching, failing or being interrupted does not change it.',
     ['histories', 'fault_sequences'],
     'all histories of option changes, runs, failures and hash calls on one object',
     'No test takes the hash after an option change; the statement is over all histories.',
     ['wilson/classes.py', 'wilson/wcxf/classes.py'],
     [('hash over coefficients and options', 'wilson/classes.py:Wilson.__hash__'), ('identity hash of a WC', 'wilson/wcxf/classes.py:WC.__hash__')],
     [('_options', 'options', 'wilson/classes.py')], ['hash(wilson)'],
     'seeded option histories with injected exceptions; hash compared against equality of the model state')

prop('C04', 'Computations never modify their inputs or shared package state',
     'Running, matching, translating, converting and validating leave the objects handed to them (coefficient dictionaries, WC objects, '
     'parameter dictionaries, arrays) as they were, and leave the package-wide parameters, option defaults, definitions and other objects as '
     'they were. This holds whether the call returns, raises or is interrupted at any point.',
     ['histories', 'fault_sequences', 'inputs'],
     'all public computations, over all orders, inputs and points of failure',
     'Tests look at results, not at the state of the arguments and of shared dictionaries afterwards, and never after a failure.',
     ['wilson/classes.py', 'wilson/parameters.py', 'wilson/wcxf/classes.py', 'wilson/run', 'wilson/translate', 'wilson/match', 'wilson/util'],
     [('copies before modification', 'wilson/classes.py:parameters, wilson/run/wet/classes.py, wilson/translate/*.py, wilson/util/*.py')],
     [('p', 'package-wide default parameters', 'wilson/parameters.py')], ['deep snapshots before and after every call'],
     'seeded programs of public calls with injected exceptions and library failures; deep snapshots as invariants')

prop('C05', 'Threads can share a Wilson object',
     'When several threads call match_run, set_option, clear_cache and get_option on the same Wilson object, a match_run during which '
     'no option changes gives the result for the options in force, and never raises an error that a fresh object would not raise. After a '
     'set_option call has returned, every match_run started later uses the new value and never returns what an older call computed with older options, '
     'also if older calls are still in flight. Results handed to one thread are not changed by another.',
     ['schedules', 'histories'],
     'all interleavings of the threads at source-line granularity',
     'The tests are single threaded.',
     ['wilson/classes.py'],
     [('cache replacement on option change', 'wilson/classes.py:set_option/clear_cache'), ('cache lookup and store', 'wilson/classes.py:match_run')],
     [('_cache/_options', 'shared state of the threads', 'wilson/classes.py')], ['return values and errors of the calls of all threads'],
     'seeded scheduler switching threads at every line of package code; history checked against the options in force')

prop('C06', 'Lazily computed views of WC and Basis objects are always complete',
     'WC.dict, WC.df, item access, printing and Basis.all_wcs always show exactly the coefficients of the object, complete and with the right values, '
     'no matter how many threads ask for them for the first time at once and whether an earlier request failed or was interrupted. Using a '
     'view never changes what the object dumps, its hash or what other views show.',
     ['schedules', 'fault_sequences', 'inputs'],
     'all interleavings of first and later accesses by several threads, all interruption points, all coefficient values',
     'Tests access the views once from one thread with a few real values.',
     ['wilson/wcxf/classes.py'],
     [('lazy caching of dict, df, all_wcs', 'wilson/wcxf/classes.py:WC.dict, WC.df, Basis.all_wcs')],
     [('_dict, _df, _all_wcs', 'cached views', 'wilson/wcxf/classes.py')], ['the views themselves'],
     'seeded scheduler switching threads at every line plus injected exceptions; views compared with the values')

prop('C07', 'QCD running functions depend on their arguments only',
     'alpha_s and the running heavy and light quark masses of wilson.util.qcd return, for given arguments, always the same value that the '
     'RunDec prescription gives (three-loop running and decoupling at the thresholds unless told otherwise), independent of which calls with which other '
     'arguments came before, of the number of calls, of other threads, and of earlier calls that failed or were interrupted. A failure of the underlying library '
     'is raised to the caller, and the next call is right again.',
     ['histories', 'schedules', 'fault_sequences', 'inputs'],
     'all call histories over scales, numbers of flavours, loop orders and reference values, including more distinct calls than any cache holds, threads and failing library calls',
     'The tests compare single calls at fixed points with fixed numbers.',
     ['wilson/util/qcd.py'],
     [('memoised wrappers', 'wilson/util/qcd.py:lru_cache')], [('lru_cache tables', 'earlier results', 'wilson/util/qcd.py')],
     ['return values of alpha_s, m_b, m_c, m_s'],
     'seeded call histories and thread interleavings with library failures, against a reference prescription written directly on rundec')

prop('C08', 'WET running is independent of history, threads and failures',
     'WETrunner.run and the WET evolution functions return for given coefficients, scales, sectors and orders always the same result as in a fresh process, '
     'no matter which other runs in the same or other EFTs, sectors and orders were done, failed or were interrupted before, or are being done by other threads. '
     'A failure of a numerical library is raised and leaves nothing behind that changes later results.',
     ['histories', 'schedules', 'fault_sequences', 'inputs'],
     'all histories of WET runs over EFTs, sectors, scales and loop orders; thread interleavings; failing library calls',
     'Tests run each case once in one process and in a fixed order.',
     ['wilson/run/wet/classes.py', 'wilson/run/wet/rge.py', 'wilson/run/wet/adm.py', 'wilson/util/qcd.py'],
     [('memoised anomalous dimensions, eigensystems and evolution matrices', 'wilson/run/wet/rge.py'),
      ('copying of the input', 'wilson/run/wet/classes.py')],
     [('lru_cache tables', 'shared arrays handed to every caller', 'wilson/run/wet/rge.py')], ['WC returned by run'],
     'seeded run histories and thread interleavings with library failures, against fresh-process references')

prop('C09', 'SMEFT running is independent of history and never returns a partial integration',
     'SMEFT.run, its continuous solution and the extraction of Standard Model parameters give for the same input always the result of a fresh process, '
     'independent of earlier, failed or interrupted runs. If the integrator stops early or a root finder does not converge in a way the code has no fallback for, '
     'the call raises: coefficients at another scale than the requested one are never returned as the result.',
     ['histories', 'fault_sequences', 'inputs'],
     'all histories of SMEFT runs with both accuracies, and all points at which integrator, root finder or linear algebra can fail',
     'Tests never see an integrator or root finder fail, and compare single runs.',
     ['wilson/run/smeft/classes.py', 'wilson/run/smeft/rge.py', 'wilson/run/smeft/smpar.py', 'wilson/run/smeft/beta.py'],
     [('integration and its status', 'wilson/run/smeft/rge.py'), ('fallback of the parameter extraction', 'wilson/run/smeft/smpar.py'),
      ('memoised contraction paths', 'wilson/run/smeft/beta.py')],
     [('SMEFT.C_in, scale_in', 'state of the runner', 'wilson/run/smeft/classes.py')], ['WC returned by run, continuous solution values'],
     'seeded run histories with failing and early-stopping integrator and failing root finder, against fresh-process references')

prop('C10', 'The registry holds exactly the definitions that loaded completely',
     'After any sequence of loading, replacing, deleting and clearing EFT, Basis, Translator and Matcher definitions, including loads that fail or are '
     'interrupted, lookups by name, the lists of known bases and translators, and iteration show exactly the definitions whose creation completed and that were not deleted, each '
     'with its own complete data. A failed load leaves the previously registered definition of that name in place, and never changes its parent or siblings.',
     ['histories', 'fault_sequences', 'inputs'],
     'all sequences of registry operations with valid and invalid definitions and with failures at any point',
     'Tests register a few valid definitions in one order.',
     ['wilson/wcxf/classes.py'],
     [('named-instance registry', 'wilson/wcxf/classes.py:NamedInstanceClass'), ('inheritance of sectors from a parent basis', 'wilson/wcxf/classes.py:Basis.__init__')],
     [('instances', 'registered definitions per class', 'wilson/wcxf/classes.py')], ['class lookup, known_bases, known_translators, all_wcs, translate/match errors'],
     'seeded operation histories with injected exceptions and failing streams, against a dictionary model')

prop('C11', 'WCxf files survive any stream: complete data or an error',
     'Dumping an EFT, Basis or WC object as JSON or YAML and loading the result gives an object with the same public data, for streams that transfer any number of bytes at a time. '
     'If reading or writing fails at any point, the error reaches the caller, or for a JSON file cut short loading raises an error: '
     'no object is ever built from part of a JSON file, and dump never reports success for a write the stream refused.',
     ['fault_sequences', 'inputs', 'crash_points'],
     'all coefficient values and file shapes, all positions at which the stream runs short, tears or fails',
     'Tests use in-memory strings and intact files.',
     ['wilson/wcxf/classes.py', 'wilson/wcxf/converters/yamljson.py', 'wilson/classes.py'],
     [('JSON first, then YAML', 'wilson/wcxf/classes.py:_load_yaml_json'), ('dump of public attributes', 'wilson/wcxf/classes.py:WCxf.dump')],
     [], ['objects returned by load, bytes written by dump, errors raised'],
     'real io stacks over a simulated device with short, torn and failing transfers; round trips against the original values')

prop('C12', 'Command line tools never claim success for incomplete output',
     'wcxf (convert, translate, match, validate), wcxf2eos, wcxf2smeftsim, wcxf2dsixtools and dsixtools2wcxf end with status 0 only when the requested '
     'output was written completely and holds exactly what the corresponding library call gives for the input file, and validate succeeds only for valid files. When input is '
     'invalid or unreadable, a required file is missing or writing fails at any point, the status is non-zero or an exception ends the program. With intact '
     'files and a working disk a valid command succeeds.',
     ['fault_sequences', 'inputs', 'configurations'],
     'all subcommands, formats and files, and all positions at which opening, reading, writing or closing can fail',
     'The existing command line tests cover intact files on a working disk.',
     ['wilson/wcxf/cli.py', 'wilson/wcxf/converters'],
     [('command entry points', 'wilson/wcxf/cli.py')], [], ['exit status, output file, standard output'],
     'in-process command runs over a simulated disk and standard streams with injected I/O errors; differential against the library calls')

prop('C13', 'EOS conversion is independent of directory enumeration and all-or-nothing',
     'The EOS parameter set built from an EOS installation directory and a WC object depends only on the file names and contents, not on the order in which the file '
     'system lists them or on files that are not relevant, and every parameter is the sum of the Standard Model value and the new-physics part of that coefficient. '
     'If any parameter file cannot be read completely, an error is raised rather than a partial set returned.',
     ['fault_sequences', 'configurations', 'inputs'],
     'all directory contents, enumeration orders and read failures',
     'The test uses one directory in the order the local file system happens to give.',
     ['wilson/wcxf/converters/eos.py'],
     [('collection of the SM values', 'wilson/wcxf/converters/eos.py:get_sm_wcs'), ('addition of NP parts', 'wilson/wcxf/converters/eos.py:wcxf2eos')],
     [], ['get_sm_wcs, wcxf2eos'],
     'simulated directories with permuted listings and failing reads, against a reference merge')

prop('C14', 'Basis validation survives whatever the LaTeX process does',
     'Validating a basis runs LaTeX on its formulas and reports success when LaTeX succeeds or is not installed, and an error when LaTeX fails, '
     'whatever the process does: missing executable, failure to start, non-zero or signal exit, missing, empty, cut or undecodable log. In every case no temporary '
     'file or directory is left behind, and nothing is written outside the temporary directory.',
     ['fault_sequences', 'configurations'],
     'all behaviours of the external process and of the temporary directory',
     'The test machine either has LaTeX or not; no test makes it misbehave.',
     ['wilson/wcxf/classes.py'],
     [('call of latex in a temporary directory', 'wilson/wcxf/classes.py:_testtex'), ('basis validation', 'wilson/wcxf/classes.py:Basis.validate')],
     [], ['validate outcome, temporary directory'],
     'simulated latex process and disk with injected failures; directory snapshot as invariant')

prop('C15', 'SMEFTsim cards depend on the given coefficients only',
     'The SMEFTsim parameter card made from a WC object, model set, cutoff scale and input scheme is the same whatever cards were made before in the process, failed or were '
     'interrupted, and whichever other threads make cards at the same time. Coefficients that are not given appear as zero: '
     'no value of one card ever shows up in another.',
     ['histories', 'schedules', 'fault_sequences', 'inputs'],
     'all histories of card creation over model sets, schemes and coefficients; thread interleavings; interruptions anywhere',
     'Tests make each card once in a fixed order.',
     ['wilson/wcxf/converters/smeftsim.py', 'wilson/wcxf/converters/SMEFTsim_param_card_elements.py'],
     [('card initialisation and filling', 'wilson/wcxf/converters/smeftsim.py')], [], ['card dictionaries and text'],
     'seeded histories and thread interleavings with injected exceptions, against fresh-process cards')

prop('C16', 'DsixTools conversion round-trips through files and keeps no state',
     'Converting SMEFT coefficients to DsixTools files and back gives the same coefficients and scales, for any split of the blocks over several files and '
     'any transfer sizes, independent of conversions done, failed or interrupted before. Read and write failures are raised, and a file without the required blocks, or with a row that cannot be read as an entry of its block (a missing or non-numeric value, an index out of range, too many indices), is rejected '
     'instead of being converted in part.',
     ['histories', 'fault_sequences', 'inputs'],
     'all coefficient sets, file splits and orders, and failure points',
     'The tests convert one fixed set of files.',
     ['wilson/wcxf/converters/dsixtools.py'],
     [('reader and writer of LHA-like files', 'wilson/wcxf/converters/dsixtools.py:SMEFTio')],
     [('C_in, scale_in, scale_high', 'state of one SMEFTio object', 'wilson/wcxf/converters/dsixtools.py')], ['dumped text, loaded coefficients'],
     'seeded conversion histories over a simulated disk with short, torn and failing transfers; round trips against the input')

prop('C17', 'Results are identical in every process',
     'The same calls give the same results, equal to the rounding of the last digits, in every process: independent of hash randomisation, of the insertion order of the coefficient dictionary, '
     'of which other part of the package was imported or used first and of warnings shown before. The coefficients of a result come in the same order when those of the input do, and files written from the same data have the same content.',
     ['configurations', 'histories', 'inputs'],
     'all hash seeds, dictionary orders and preceding uses',
     'Each test runs in one process with one hash seed and one dictionary order.',
     ['wilson/classes.py', 'wilson/translate', 'wilson/util', 'wilson/run', 'wilson/wcxf'],
     [('set and dictionary iteration in sector selection, symmetrisation and conversion', 'wilson/util/common.py, wilson/run/wet/classes.py')],
     [], ['values and file contents'],
     'same simulated program under controlled hash seeds and dictionary orders; differential')

prop('C18', 'The package imports the same from any directory order, or fails cleanly',
     'Importing the package registers the EFTs, bases (children with the sectors of their parents), translators and matchers, with the same contents whatever the order in which the '
     'file system lists the definition files. If a definition file is unreadable, cut short or invalid, the import fails with an error instead of leaving a package with part of the definitions.',
     ['fault_sequences', 'configurations'],
     'all enumeration orders and read failures of the definition files',
     'The tests import the package once from one directory.',
     ['wilson/wcxf/__init__.py', 'wilson/wcxf/classes.py'],
     [('loading of EFT, parent and child basis files', 'wilson/wcxf/__init__.py')],
     [('instances', 'registered definitions', 'wilson/wcxf/classes.py')], ['registry after import'],
     'fresh simulated import over a simulated disk with permuted listings and read faults; against the files')

prop('C19', 'Continuous RG solutions stay valid on their own',
     'A continuous solution obtained from a SMEFT or WET runner agrees at its end points, for the coefficients of the basis, with integrating the RGEs to that scale directly (for WET: with run(); '
     'for SMEFT: before the rotation to the default flavour basis that run() adds), and evaluating it at any scale inside its range '
     'gives the same values in any order and any number of times, whatever the runner and other objects are used for afterwards, and from any thread. '
     'A solution whose integration did not reach the end of the range is never returned.',
     ['histories', 'schedules', 'fault_sequences'],
     'all histories of further use of the runner, evaluation orders, interleavings and early stops of the integrator',
     'The tests evaluate a solution once directly after creating it.',
     ['wilson/classes.py', 'wilson/run/smeft/classes.py', 'wilson/run/wet/classes.py', 'wilson/run/smeft/rge.py'],
     [('RGsolution over a captured function', 'wilson/classes.py:RGsolution'), ('continuous runs', 'wilson/run/smeft/classes.py, wilson/run/wet/classes.py')],
     [], ['plotdata, fun'],
     'seeded histories with injected failures and thread interleavings, against direct runs')

prop('C20', 'Objects keep working when copied, pickled or inherited by a fork',
     'A Wilson, WC or WETrunner object that is copied, deep-copied, pickled and loaded in another process, or inherited by a forked worker gives '
     'the same results as the original, whatever was computed before. After deep-copying, pickling or forking, option changes and results on one side never affect the other.',
     ['histories', 'crash_points', 'configurations'],
     'all histories before and after the transfer, all kinds of transfer',
     'No test transfers an object between processes.',
     ['wilson/classes.py', 'wilson/wcxf/classes.py', 'wilson/run/wet/classes.py'],
     [('plain instance attributes', 'wilson/classes.py, wilson/wcxf/classes.py')], [('_cache, _options', 'state that travels', 'wilson/classes.py')],
     ['match_run and get_option on both sides'],
     'simulated worker processes receiving objects by pickle, copy or fork at arbitrary points of a history; against the reference pipeline')

prop('C21', 'Translation and matching depend on the given coefficients and parameters only',
     'WC.translate, WC.match and the functions behind them return for given coefficients, parameters and sectors always the result of a fresh process; parameters given to one call '
     'never leak into another, and parameters not given are the defaults, independent of earlier, failed, interrupted or concurrent calls. Translating or matching through an unregistered '
     'or failing function raises and leaves the source object usable.',
     ['histories', 'schedules', 'fault_sequences', 'inputs'],
     'all histories of translations and matchings with and without user parameters, interleavings and failure points',
     'Tests translate single points without looking at the effect of earlier calls with other parameters.',
     ['wilson/wcxf/classes.py', 'wilson/translate', 'wilson/match', 'wilson/util/wet_jms.py', 'wilson/util/smeft_warsaw.py', 'wilson/util/common.py'],
     [('merging of default and user parameters', 'wilson/translate/*.py, wilson/match/*.py')],
     [('p', 'default parameters', 'wilson/parameters.py')], ['WC returned by translate and match'],
     'seeded call histories and thread interleavings with library failures, against fresh-process references')

prop('C22', 'A checkpointed calculation restarted after crashes gives the direct result',
     'A calculation carried out in steps of running, matching, translating, changing file format and saving to WCxf files, each step in a process that may '
     'die at any point and is restarted from the last complete file, ends with the same coefficients as the same calculation done directly in one process. '
     'Scale, EFT and basis recorded in the files always describe the coefficients in them.',
     ['crash_points', 'programs', 'fault_sequences', 'inputs'],
     'all splittings of a run into steps, scales, bases and file formats, and all crash points',
     'Tests perform one step at a time and never restart from a file after a crash.',
     ['wilson/classes.py', 'wilson/wcxf/classes.py', 'wilson/run', 'wilson/translate', 'wilson/match', 'wilson/wcxf/converters/yamljson.py'],
     [('composition of running, matching and translation', 'wilson/classes.py:match_run'), ('exact serialisation of numbers', 'wilson/wcxf/classes.py:dump/load')],
     [], ['final coefficients, files'],
     'simulated pipeline of processes over a simulated disk with crashes at chosen lines and torn files; against the direct run')

# ---------------------------------------------------------------------------
# pure functions: nothing for a schedule or a fault to act on

_PURE = 'the existing tests sample a few points of an infinite input space'


def na(id, title, statement, files, why):
    prop(id, title, statement, ['inputs'], 'all Wilson coefficient points and scales', _PURE + '.', files,
         [('formulas', files[0])], na=why)


na('N01', 'RG evolution is linear in the Wilson coefficients',
   'Running a linear combination of Wilson coefficients gives the same linear combination of the separately run coefficients: exactly in the WET, and to first order in the coefficients in the SMEFT.',
   ['wilson/run/wet/rge.py', 'wilson/run/smeft/beta.py'],
   'a relation between the values of a pure function for different inputs: no schedule, time, I/O or failure takes part, so simulation has nothing to decide')
na('N02', 'Anomalous dimensions and matching conditions are those of the literature',
   'The entries of the anomalous dimension matrices, beta functions and matching conditions equal the published formulas.',
   ['wilson/run/wet/adm.py', 'wilson/run/smeft/beta.py', 'wilson/match/smeft_loop.py', 'wilson/match/smeft_tree.py'],
   'correctness of transcribed formulas of a pure function; the oracle is a set of papers, and no nondeterminism or fault is involved')
na('N03', 'Symmetrisation is idempotent and respects index symmetries and hermiticity',
   'Expanding coefficients to full tensors imposes exactly the index symmetries and hermiticity of each operator; doing it twice changes nothing, and contraction back to the independent elements is its inverse.',
   ['wilson/util/common.py'],
   'algebraic property of pure functions on arrays; a property-based test is the right tool, simulation has no lever')
na('N04', 'Rotations and CKM matrices built from parameters are unitary',
   'All rotation matrices the translators build from quark and lepton parameters are unitary, and basis rotations preserve basis-independent combinations.',
   ['wilson/util/smeft_warsaw.py', 'wilson/util/wet_jms.py'],
   'numerical identity of a pure function of the inputs, no schedule or fault can change it')
na('N05', 'Extracted Standard Model parameters reproduce the measured inputs',
   'The Standard Model parameters extracted in presence of Wilson coefficients reproduce the input masses, mixing angles and couplings when predictions are computed from them.',
   ['wilson/run/smeft/smpar.py'],
   'closure relation of a pure function; what fault injection can reach of it (failure of the root finder) is part of C09')
na('N06', 'Sector-restricted calculations agree with the full one',
   'Restricting running or translation to some sectors gives exactly the coefficients of these sectors that the full calculation gives.',
   ['wilson/classes.py', 'wilson/run/wet/classes.py', 'wilson/translate/wet.py'],
   'relation between two evaluations of a pure function on different arguments; interaction of sector results with cached full results, which is stateful, is decided by C01')


def main():
    here = os.path.join(ROOT, 'sim', 'checks')
    have = {f[:-3].upper() for f in os.listdir(here) if f.endswith('.py')}
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
    checks, nas = [], []
    for p in P:
        if p['_na']:
            nas.append({'property': p['id'], 'reason': p['_na']})
        elif p['id'] in have:
            checks.append({
                'property': p['id'],
                'quick_cmd': './check %s --tier quick' % p['id'],
                'thorough_cmd': './check %s --tier thorough' % p['id'],
                'technique': TECH + p['_tech'],
                'level': 'exploration',
                'level_note': (p['_note'] + ' ' if p['_note'] else '') +
                'Seeded search, not exhaustive: assures the property on the runs, schedules and faults explored (counted in the evidence). '
                'Runs the real package code; the definition files of the empty wcxf-bases submodule are stand-ins with the names and sectors the code uses.'})
        else:
            nas.append({'property': p['id'], 'reason': 'the check for this property is not built yet'})
    m = {'version': 1, 'setup_cmd': './check --selftest', 'checks': checks, 'not_applicable': nas,
         'notes': 'No hooks in /repo: every seam is reached from outside (sys.monitoring line events, wrapped library entry points, redirected definition files). '
                  'Failures are replayed with ./check <ID> --replay <file>. Genuine defects are in known-findings.txt.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks,', len(nas), 'not applicable')


if __name__ == "__main__":
    main()
