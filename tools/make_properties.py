"""writes properties.jsonl and MANIFEST.json (run by hand after an edit)"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
U = 'stoqcompiler/unitary/unitary.py'
E = 'stoqcompiler/unitary/unitary_sequence_entry.py'
S = 'stoqcompiler/unitary/unitary_sequence.py'
D = 'stoqcompiler/unitary/unitary_definitions.py'
PU = 'stoqcompiler/unitary/parameterized_unitary.py'
PD = 'stoqcompiler/unitary/parameterized_unitary_definitions.py'
PP = 'stoqcompiler/unitary/parameterized_unitary_parameter.py'
PR = 'stoqcompiler/unitary/unitary_primitive.py'
C = 'stoqcompiler/compiler/compiler.py'
CA = 'stoqcompiler/compiler/compiler_action.py'
CR = 'stoqcompiler/compiler/compiler_result.py'
V = 'stoqcompiler/verification/verification.py'
H = 'stoqcompiler/hamiltonian/hamiltonian.py'
HT = 'stoqcompiler/hamiltonian/hamiltonian_term.py'


def st(name, meaning, where):
    return dict(name=name, meaning=meaning, where=where)


def me(name, where):
    return dict(name=name, where=where)


ENTRIES = st('sequence_entries', 'the gates of the sequence in the order they '
             'act', S + ': UnitarySequence.__init__')
CACHE = st('sequence_product', 'cached product of the entries, updated with '
           'every change', S + ': UnitarySequence.product')
SAVED = st('previous_entries, previous_sequence_product', 'the state undo '
           'returns to', S + ': UnitarySequence._save_undo_state')
FULL = st('full_unitary_by_dimension', 'cached operator of an entry for each '
          'system size', E + ': UnitarySequenceEntry.get_full_unitary')
MATRIX = st('matrix', 'the stored matrix, of determinant one',
            U + ': Unitary.__init__')
BETA = st('beta', 'the annealing parameter', C + ': Compiler._compile')
COSTS = st('cost_by_step', 'cost after each step', C + ': Compiler._compile')
TERMS = st('terms', 'the terms of the Hamiltonian', H +
           ': Hamiltonian.__init__')

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state,
         observe):
    assert len(title) <= 80, (id, len(title))
    assert statement.count('. ') <= 2, id
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=mechanism, state=state),
        observe_at=observe, hook_needed=False))


prop('C01', 'A gate applied to an ordered tuple of qubits acts on exactly '
     'those qubits',
     'For every gate, every ordered tuple of distinct qubits and every system '
     'size, the operator of the gate on the whole system acts as the gate on '
     'the named qubits in the given order (the first one being the most '
     'significant of the gate, qubit 0 the most significant of the system) '
     'and as the identity on all others, up to global phase. It does not '
     'depend on how often or for which other system sizes it was asked for, '
     'and name, parameters and qubits are kept. Qubits that are negative, '
     'repeated, of the wrong number or outside the system are refused.',
     ['inputs'],
     'all unitary gates on 1..3 qubits, all ordered tuples of qubits, all '
     'systems of 1..5 (6) qubits, all orders of requests for several sizes',
     'Tests fix one or two gates and qubit orders; a wrong permutation often '
     'agrees on symmetric gates, neighbouring qubits or two-qubit systems, '
     'and a matrix with free entries on every tuple is out of reach of '
     'samples.',
     [E, U], [me('permutation of the tensor factors', E +
                 ': UnitarySequenceEntry.get_permute_matrix'),
              me('expansion by the identity and caching', E +
                 ': UnitarySequenceEntry.get_full_unitary'),
              me('tensor product', U + ': Unitary.tensor')], [FULL],
     'UnitarySequenceEntry(...).get_full_unitary(dimension).get_matrix()')

prop('C02', 'A unitary object accepts exactly unitary matrices and has '
     'determinant one',
     'A unitary object can be built from a matrix exactly when the matrix is '
     'a square array of the stated dimension that is unitary within rounding '
     '(numpy\'s default tolerances). The stored matrix is unitary, equals '
     'the given one up to a global phase and has determinant one, so that '
     'matrices differing by a phase give the same object up to a root of '
     'unity. The given array is left unchanged, and no matrix means the '
     'identity.',
     ['inputs'],
     'all complex 2x2 matrices with components in [-2, 2], all unitary '
     'matrices of dimension 1..4 (8), structured ones up to 8, all shape '
     'mismatches up to 4',
     'The determinant normalisation takes roots of complex numbers whose '
     'branch depends on all entries; the boundary of acceptance is a surface '
     'in a continuum of matrices that samples do not meet.',
     [U], [me('validation and phase normalisation',
              U + ': Unitary.__init__')], [MATRIX],
     'Unitary(dimension, matrix).get_matrix() and the exceptions of the '
     'constructor')

prop('C03', 'Inverse, products and tensor products of unitaries are what '
     'they claim',
     'Up to global phase the inverse is the conjugate transpose, keeps name, '
     'parameters and qubits and is marked as an inverse, and inverting twice '
     'restores the original including its display name. Multiplying on the '
     'left or right and tensoring give the corresponding matrix products in '
     'the right order, associative and with the right dimension, and never '
     'change their operands. Operands of mismatching dimension are refused, '
     'and a random unitary is a unitary of the requested dimension.',
     ['inputs'], 'all unitaries of dimension 1..4 (8) as operands, products '
     'of up to three, tensor products of mixed dimensions',
     'Order and conjugation errors vanish for commuting, real or symmetric '
     'matrices, which is what tests use; the laws are identities over all '
     'matrix entries.',
     [U], [me('inverse', U + ': Unitary.inverse'),
           me('left and right multiplication',
              U + ': Unitary.left_multiply, right_multiply'),
           me('tensor', U + ': Unitary.tensor'),
           me('random', U + ': Unitary.random')],
     [MATRIX, st('is_inverse', 'whether the object is shown as an inverse',
                 U + ': Unitary.inverse')],
     'get_matrix, get_display_name, get_dimension of results and operands')

prop('C04', 'Distance and closeness measure normalized overlap, blind to '
     'global phase',
     'The distance of two unitaries is 1 - |tr(A^dagger B)| / d: symmetric, '
     'between 0 and 1, zero for equal operators, unchanged by global phases '
     'and by multiplying both with a common unitary on either side, and the '
     'same whether the other operand is an object or a matrix. Two unitaries '
     'are close for a threshold t exactly when one minus the distance '
     'reaches t, within rounding, and a missing threshold means that they '
     'are equal up to global phase. In particular an operator is close to '
     'itself and to phased copies at every threshold up to one.',
     ['inputs'], 'all pairs of unitaries of dimension 2..4, all thresholds '
     'in [-0.5, 1.5] or none',
     'The properties quantify over continuous pairs and thresholds, '
     'including thresholds of exactly one where rounding decides whether a '
     'compilation ever ends.',
     [U], [me('distance', U + ': Unitary.distance_from'),
           me('closeness test', U + ': Unitary.close_to')], [MATRIX],
     'values of distance_from and close_to')

prop('C05', 'The gate library implements the textbook gates for every angle',
     'Every fixed gate and every rotation, two-qubit XX and global '
     'Molmer-Sorensen gate of the library equals, up to global phase, the '
     'exponential or matrix that defines it, for every angle and number of '
     'qubits. Names, dimensions, angle values and the marking of parameters '
     'as angles are recorded with the gate. Angle zero gives the identity '
     'and rotations about one axis add their angles.',
     ['inputs'], 'all angles in [-20, 20], 1..4 (5) qubits, all gates of the '
     'library',
     'Tests compare a few special angles at which sign, factor-two and '
     'periodicity errors coincide with the correct values.',
     [D], [me('gate definitions', D + ': UnitaryDefinitions.*')], [MATRIX],
     'matrices, names and parameters of the returned objects')

prop('C06', 'A parameterized gate admits exactly its ranges and yields the '
     'right gate',
     'A parameterized gate given one value per parameter is turned into a '
     'unitary exactly when every value lies in its closed range, and the '
     'result is the defining matrix at these values, with name and parameter '
     'values recorded, independent of earlier and later uses. A parameter '
     'range is accepted exactly when it is not empty. Random values are '
     'uniform on the range and never leave it.',
     ['inputs', 'schedules'], 'all parameter values in [-9, 9] and all ranges '
     'in [-5, 5] for every library gate, every random draw',
     'Range ends, uniformity at every quantile and the value of each matrix '
     'entry as a function of up to three free parameters cannot be sampled.',
     [PU, PP, PD, D],
     [me('application of values', PU + ': ParameterizedUnitary.as_unitary'),
      me('range test and random value', PP +
         ': ParameterizedUnitaryParameter.is_valid, random_value'),
      me('library', PD + ': ParameterizedUnitaryDefinitions.*')],
     [st('min_value, max_value', 'closed range of a parameter',
         PP + ': ParameterizedUnitaryParameter.__init__')],
     'as_unitary, is_valid, random_value')

prop('C07', 'A sequence product is the ordered product of its gates after '
     'any history',
     'After every history of adding and removing gates at either end and '
     'reading the product at any time, the length, the gates in order and '
     'the product (first gate acting first, up to global phase) are those of '
     'the list of gates. Removing from an empty sequence changes nothing. A '
     'gate that does not fit is refused and leaves the sequence as it was.',
     ['histories', 'inputs'], 'all histories of up to 4 (5) operations from '
     'sequences of 0..3 gates on 1..3 qubits with arbitrary angles, product '
     'read or not at every point',
     'The product is cached and updated incrementally; whether the cache '
     'agrees with the entries depends on the interleaving of reads and '
     'changes, of which tests try one or two.',
     [S, E, U], [me('incremental update', S + ': UnitarySequence.append_first, '
                    'append_last, remove_first, remove_last'),
                 me('product', S + ': UnitarySequence.product')],
     [ENTRIES, CACHE, FULL],
     'get_sequence_entries, get_length, product after every operation')

prop('C08', 'Undo restores exactly the state before the last saved change, '
     'once',
     'Undo brings gates, order, length and product back to what they were '
     'immediately before the most recent change made with saving, also when '
     'further changes were made without saving afterwards. It works once per '
     'saved state: without one, including directly after an undo, it is '
     'refused and nothing changes. Sequences that share gates or were '
     'derived from one another are not affected.',
     ['histories'], 'all histories of up to 3 (4) operations among saving and '
     'non-saving changes, undo and reading, from 0..2 gates; whole layers',
     'Correctness depends on what was cached and saved when; the faulty '
     'combinations need several steps in one order.',
     [S], [me('saving', S + ': UnitarySequence._save_undo_state'),
           me('undo', S + ': UnitarySequence.undo')],
     [ENTRIES, CACHE, SAVED], 'entries and product after undo; refusals')

prop('C09', 'Inverting and concatenating sequences is exact and detached',
     'The inverse of a sequence holds the inverted gates in reverse order, '
     'marked as inverses, on the same qubits, and its product undoes the '
     'original. The concatenation of sequences holds all gates in order and '
     'its product is theirs applied in that order. Both are independent of '
     'their sources under every later change, and mismatching sequences are '
     'refused.',
     ['inputs', 'histories'], 'sequences of 0..4 gates on 1..3 qubits, gates '
     'repeated or not, products read or not, every single later change',
     'Errors hide in cached products and shared gate objects and show only '
     'for non-commuting gates, repeated entries or changes made afterwards.',
     [S, E, U], [me('inverse', S + ': UnitarySequence.inverse'),
                 me('concatenation', S + ': UnitarySequence.combine'),
                 me('copying of entries', S + ': UnitarySequence.__init__, '
                    'get_sequence_entries')],
     [ENTRIES, CACHE, FULL],
     'entries, products and display names of result and sources')

prop('C10', 'A compilation ends at the threshold or step limit with an '
     'honest result',
     'A compilation stops before the first step at which the sequence so far '
     'is close to the target at the threshold, and otherwise after exactly '
     'the allowed number of steps. The result consists of gates from the '
     'given set (a list or an array) on allowed qubits within allowed '
     'parameters, at most one per step, its product is that of these gates, the '
     'elapsed time is that of the whole compilation, and the target is '
     'unchanged. A target that is already '
     'reached gives an empty sequence and no step, and invalid gate sets or '
     'targets are refused.',
     ['schedules', 'inputs'], 'every outcome of all random draws for up to 3 '
     '(4) steps, every threshold in [-0.1, 1.1] or none, every step limit '
     '0..3',
     'The loop is random: a test sees one run, while the guarantee is about '
     'all draws and every real threshold.',
     [C, CR, S, U], [me('compilation loop', C + ': Compiler._compile'),
                     me('entry point', C + ': Compiler.compile')],
     [COSTS, ENTRIES, CACHE], 'the returned result object')

prop('C11', 'The cost trace records the distance to the target after every '
     'step',
     'Every step adds one number to the trace: the distance between the '
     'target and the product of the gates held after that step, between 0 '
     'and 1, the last one belonging to the returned sequence. Between '
     'consecutive steps the sequence either stays the same or gains or loses '
     'one gate at one end. Running with the same random draws and a smaller '
     'step limit gives the same trace cut short.',
     ['schedules'], 'every outcome of all random draws for step limits 1..3 '
     '(4)',
     'The trace must be right for rejected as well as accepted proposals of '
     'every kind; that the sequence is really rolled back shows only through '
     'all prefixes of a run.',
     [C, S], [me('compilation loop', C + ': Compiler._compile'),
              me('roll back', S + ': UnitarySequence.undo')],
     [COSTS, ENTRIES, SAVED],
     'cost_by_step and compiled_sequence for every step limit')

prop('C12', 'Proposals follow the set probabilities, acceptance the '
     'Metropolis rule',
     'Each step proposes adding a gate at a random end with the append '
     'probability and otherwise removing one at a random end, all ends '
     'equally likely and gates with the configured probabilities, and '
     'accepts with probability min(1, exp(-beta (new cost - old cost))). '
     'The parameter beta starts from zero in every compilation, grows by the '
     'annealing rate before every decision and is capped at (2^dimension)^2. '
     'A compiler object can be used repeatedly without one compilation '
     'influencing the next.',
     ['schedules', 'configurations'], 'the exact probability of every state '
     'after 1 and 2 (3) steps as a function of append probability, annealing '
     'rate, gate probabilities and threshold',
     'Wrong probabilities, an off-by-one in beta or a sign in the exponent '
     'still compile the test targets; the law of a random process is not '
     'visible in single runs.',
     [C, CA], [me('proposal', C + ': Compiler._make_random_change'),
               me('acceptance', C + ': Compiler._accept_proposed_change'),
               me('annealing', C + ': Compiler._compile')], [BETA],
     'distribution of (sequence, number of steps) over the random draws')

prop('C13', 'Random gates follow the configured probabilities and '
     'restrictions',
     'A randomly created gate is one of the given primitives with the given '
     'probabilities (uniform if none), restricted to those that can be '
     'placed at all with their relative probabilities kept. Its parameters '
     'are independent and uniform on their ranges, and its qubits are '
     'uniform among the allowed tuples, or among all ordered tuples of '
     'distinct qubits if unrestricted. Arguments are left unchanged and '
     'successive gates are independent.',
     ['schedules', 'configurations'], 'the exact probability of every '
     'proposal for 1..4 primitives on 1..3 (4) qubits with arbitrary '
     'probabilities and every kind of restriction',
     'A biased or wrongly restricted choice still produces valid gates; only '
     'the whole distribution shows it.',
     [C, PR, PP], [me('random entry', C +
                      ': Compiler.create_random_sequence_entry'),
                   me('random parameter', PP +
                      ': ParameterizedUnitaryParameter.random_value')],
     [st('allowed_apply_to', 'the tuples of qubits a primitive may act on',
         PR + ': UnitaryPrimitive.__init__')],
     'distribution of the returned entries over the random draws')

prop('C14', 'Layered compilation only ever adds, removes or rolls back whole '
     'layers',
     'The result of a layered compilation is a sequence of whole layers, '
     'each holding every primitive exactly as often as requested in '
     'uniformly random order with randomly chosen allowed qubits. Each step '
     'adds or removes one layer at one end or leaves everything unchanged, '
     'with the probabilities, acceptance rule, trace, stopping and step '
     'limit of ordinary compilation. The requested make-up and the target '
     'are left unchanged.',
     ['schedules', 'configurations'], 'every outcome and exact probability '
     'of the first 2 (3) steps for layers of 1..3 gates; every random layer '
     'of 0..4 gates',
     'A rejected layer must be rolled back as a whole; a half-removed layer '
     'arises only for particular draws.',
     [C, S], [me('layered change', C +
                 ': Compiler._make_random_change_layered'),
              me('random layer', C + ': Compiler.create_random_layer'),
              me('loop', C + ': Compiler._compile_layered')],
     [ENTRIES, SAVED, BETA, COSTS],
     'compiled_sequence and cost_by_step over all draws')

prop('C15', 'Verification sequences are a random part followed by its '
     'compiled inverse',
     'A randomized analog verification sequence starts with the requested '
     'number of independent random gates, or whole layers, followed by a '
     'compilation of the inverse of their product with the given gate '
     'probabilities, append probability, threshold and step limit. Hence the '
     'last cost is the distance of the whole sequence from the identity, and '
     'generation ends early only once the threshold is met. A zero threshold '
     'or step limit, and cross-entropy benchmarking, give just the random '
     'part; invalid arguments are refused.',
     ['schedules', 'inputs'], 'initial parts of 0..2 (3) gates or layers, up '
     'to 2 (3) steps, every threshold in [0, 1] or none, all draws; exact '
     'law of initial part and inversion',
     'Whether the second part inverts the first, in the right order, for '
     'all random parts is invisible for single short runs that may not '
     'reach the threshold.',
     [V, C, S], [me('RAV', V + ': Verification.generate_rav_sequence'),
                 me('layered RAV', V +
                    ': Verification.generate_layered_rav_sequence'),
                 me('XEB', V + ': Verification.generate_xeb_sequence')],
     [ENTRIES, COSTS], 'the returned result object')

prop('C16', 'A Hamiltonian term is its strength times a matrix of largest '
     'singular value 1',
     'Every Hermitian matrix other than zero is split into a positive real '
     'strength, equal to its largest singular value, times a matrix of '
     'largest singular value one, and their product is the given matrix. '
     'Scaling the matrix scales the strength by the modulus and leaves the '
     'normalized matrix the same up to sign, and later changes of the given '
     'array have no effect. Non-square, non-Hermitian or non-array arguments '
     'are refused.',
     ['inputs'], 'all Hermitian matrices of dimension 1 and 2 and families of '
     'dimension 3, 4 and 8 with entries in [-3, 3]',
     'Norm choices (Frobenius, eigenvalue, largest entry) agree on the Pauli '
     'matrices tests use and differ on general Hermitian matrices.',
     [HT], [me('splitting', HT + ': HamiltonianTerm.__init__')],
     [st('coefficient, normalized_matrix', 'strength and normalized matrix',
         HT + ': HamiltonianTerm.__init__')],
     'get_matrix, get_coefficient, get_normalized_matrix')

prop('C17', 'Evolution, ideal and Trotter sequences realise exp(iHt) from '
     'the terms',
     'The evolution operator of a Hamiltonian for time t is exp(iHt) of the '
     'sum of its terms up to global phase, the identity at time zero and '
     'additive in time. An ideal sequence has n equal steps of time t/n that '
     'together give the evolution operator; a Trotter sequence has n rounds '
     'each containing every term exactly once for time t/n, in the order of '
     'the terms or, randomized, in an independent uniformly random order per '
     'round. The Hamiltonian does not change, also when the matrices or '
     'lists it was made from are changed later.',
     ['inputs', 'schedules'], 'Hamiltonians of 1..4 terms on 1..3 qubits '
     'with arbitrary strengths, all times in [-3, 3], 1..6 steps, all random '
     'orders with exact probabilities',
     'Signs, factors and step times coincide for special times and commuting '
     'terms; orders of randomized rounds need the full distribution.',
     [H, HT, D], [me('evolution', H +
                     ': Hamiltonian.get_time_evolution_operator'),
                  me('ideal', H + ': Hamiltonian.get_ideal_sequence'),
                  me('Trotter', H + ': Hamiltonian.get_trotter_sequence'),
                  me('exponential', D +
                     ': UnitaryDefinitions.time_evolution')],
     [TERMS], 'matrices of the returned operators and entries')

prop('C18', 'QDRIFT sequences sample terms by strength with equal-strength '
     'steps',
     'A QDRIFT sequence has the requested number N of entries, each the '
     'evolution under one normalized term for time (sum of strengths) t/N. '
     'Terms are drawn independently with probability proportional to their '
     'strengths. This holds for every time, also negative, and every number '
     'of entries.',
     ['schedules', 'inputs'], 'Hamiltonians of 1..4 terms on 1..3 qubits '
     'with arbitrary strengths, every time in [-3, 3]; exact probability of '
     'every sequence of 1..3 (4) entries as a function of the strengths',
     'Uniform, squared or unnormalized weights still give valid sequences '
     'and agree for equal strengths.',
     [H, HT, D], [me('QDRIFT', H + ': Hamiltonian.get_qdrift_sequence'),
                  me('normalisation', HT + ': HamiltonianTerm.__init__')],
     [TERMS], 'entries of the returned sequence over all draws')

prop('C19', 'Hamiltonian compilations use only its terms for at most the '
     'allowed time',
     'A sequence compiled from a Hamiltonian consists of evolutions under '
     'single terms, or sums of distinct terms if simultaneous terms are '
     'allowed, each for a time within plus or minus the largest step, all '
     'choices equally likely and times uniform; the last cost is its '
     'distance from the evolution operator. A verification sequence starts '
     'with a random part of such steps, forward with probability 0.8, that '
     'stops as soon as the absolute times add up to the requested time, and '
     'goes on with a compilation of its inverse. It ends early only once the '
     'threshold is met.',
     ['schedules', 'inputs'], 'Hamiltonians of 1..3 terms on 1..2 qubits, '
     'arbitrary strengths, times, largest steps and thresholds, random parts '
     'of up to 2 (3) entries, up to 1 (2) compilation steps',
     'Which terms, signs and times are possible and how likely they are is '
     'a statement about all draws; tests check that a result comes out.',
     [H, PD, C], [me('primitives', H + ': Hamiltonian._get_unitary_primitives, '
                     '_get_term_subsets'),
                  me('STOQ', H + ': Hamiltonian.compile_stoq_sequence'),
                  me('RAV', H + ': Hamiltonian.compile_rav_sequence')],
     [TERMS, ENTRIES, COSTS], 'the returned result object over all draws')

prop('C20', 'Text exports list every gate in order with name, qubits and '
     'parameter values',
     'Each textual form of a sequence (QASM-like, JAQAL-like, display) is a '
     'comment line followed by one line per gate in the order they act, with '
     'the name of the operation, its qubits in the order of the gate as '
     'plain numbers and its parameter values in order; angles in QASM-like '
     'lines are multiples of pi rounded to 7 decimals, in display lines '
     'multiples of pi to 3 decimals and other values 4 decimals. Display '
     'lines mark inverted gates, and an operation exported on its own '
     'without qubits is written as acting on all its qubits. Exporting '
     'changes nothing.',
     ['inputs'], 'sequences of 0..3 gates on 1..3 qubits with 0..3 '
     'parameters of any value in [-20, 20], every tuple of qubits, gates '
     'inverted or not, placed by hand or proposed at random',
     'Swapped qubits, parameters in the wrong place and lost inverse '
     'markers only show for particular gates, and rounding for particular '
     'values.',
     [U, S, E], [me('one operation', U + ': Unitary.get_jaqal, get_qasm, '
                    'get_display_name'),
                 me('sequence', S + ': UnitarySequence.get_jaqal, get_qasm, '
                    'get_display_output'),
                 me('placed operation', E +
                    ': UnitarySequenceEntry.get_full_unitary')],
     [ENTRIES], 'the returned strings, read back')

prop('C21', 'Operations leave what they are given, and all other objects, as '
     'they were',
     'Arrays, lists, dictionaries, probabilities, counts, unitaries, '
     'entries, primitives, terms, targets and other sequences handed to a '
     'public operation are unchanged by it, also when it is refused. Only '
     'appending, removing and undoing change a sequence, and only that one; '
     'later changes of a result do not reach the arguments it was made from, '
     'and later changes of the matrix, qubit list, entry list, gate list, '
     'weights or term list an object was built from do not reach the object.',
     ['inputs', 'histories'], 'every public operation once, or two after '
     'each other, on arguments with free or nearly vanishing entries and '
     'every angle in [-3, 3], all draws of up to 2 steps',
     'Aliasing is visible only when the argument is used again, which a '
     'test of a single call does not do, and for values that are altered.',
     [U, E, S, PU, C, V, H, HT],
     [me('copy of the matrix', U + ': Unitary.__init__, get_matrix'),
      me('copy of the entries', S + ': UnitarySequence.__init__'),
      me('primitives', C + ': Compiler.__init__'),
      me('terms', H + ': Hamiltonian.__init__')],
     [MATRIX, ENTRIES, TERMS],
     'the arguments before and after the call')

prop('C22', 'Results depend on the arguments and the draws only, not on earlier '
     'calls',
     'A public operation called with the same arguments and the same outcomes '
     'of its random draws, made with the same probabilities, gives the same '
     'result whatever was called before, '
     'with whatever other angles, matrices, qubits, system sizes, names, gate '
     'sets, targets or Hamiltonians, and whether those calls succeeded or '
     'were refused. Nothing computed for one object shows up in another.',
     ['inputs', 'histories'], 'every public operation after each of its '
     'listed earlier calls, angles and times in [-3, 3], all draws of up to '
     '2 steps',
     'Results kept between calls are wrong only after a particular other '
     'call, which tests that make each call once never reach.',
     [U, E, S, D, PU, PD, C, V, H, HT],
     [me('operator for a system size', E + ': '
         'UnitarySequenceEntry.get_full_unitary'),
      me('product', S + ': UnitarySequence.product'),
      me('library operations', D + ': UnitaryDefinitions'),
      me('search parameter', C + ': Compiler._compile')],
     [FULL, CACHE, BETA],
     'the first and the later result')

prop('C23', 'Random unitaries are uniformly distributed',
     'Every random unitary of a given dimension is unitary, follows the '
     'uniform (Haar) law of that dimension up to a phase, and is independent '
     'of the random unitaries returned before.',
     ['inputs', 'histories'], 'three random unitaries in a row of dimensions '
     '1, 2, 3, 4, 8 (16 thorough), every outcome of the draws of the library',
     'Random targets are what compilation is measured and verified with. A '
     'test sees a few unitary matrices and cannot tell which law they '
     'follow, or how many different ones there are.',
     [U],
     [me('random unitary', U + ': Unitary.random')],
     [MATRIX],
     'the matrix of the returned unitary against the matrices drawn')
prop('C24', 'Rounding errors stay small over long histories',
     'Products, evolutions and compilations computed in floating point '
     'differ from the exact result by an error that stays negligible however '
     'many gates, terms or steps are involved.',
     ['inputs', 'histories'], 'sequences, evolutions and compilations of any '
     'length',
     'Errors grow with the length of a computation, and tests only run short '
     'ones.',
     [U, S, H],
     [me('product', S + ': UnitarySequence.product'),
      me('evolution', H + ': Hamiltonian.get_time_evolution_operator'),
      me('product of unitaries', U + ': Unitary.left_multiply')],
     [FULL],
     'computed matrices against exact ones')

NOT = {'C24': 'the encoding takes floats as exact reals, and the values come '
              'from BLAS, LAPACK and expm, whose floating-point behaviour '
              'cannot be encoded within reach of a solver; what is decided '
              'instead (C01, C05, C08, C09, C14) is that the results are '
              'right in exact arithmetic'}

DONE = os.environ.get('DONE')
DONE = DONE.split(',') if DONE else [p['id'] for p in P]

if __name__ == '__main__':
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            if p['id'] in DONE:
                f.write(json.dumps(p) + '\n')
    note = ('bounded: see BOUNDS of the harness and the evidence file; exact '
            'real arithmetic for floats')
    checks = [dict(
        property=p['id'],
        quick_cmd='/opt/venv/bin/python check.py ' + p['id'],
        thorough_cmd='/opt/venv/bin/python check.py %s --tier thorough' %
        p['id'],
        technique='symbolic execution of the real code, decided by z3, '
        'counterexamples replayed',
        level='model_checking', level_note=note)
        for p in P if p['id'] in DONE and p['id'] not in NOT]
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(dict(version=1,
                       setup_cmd='/opt/venv/bin/python check.py --selftest',
                       checks=checks, not_applicable=[
                           dict(property=k, reason=v)
                           for k, v in NOT.items()]), f, indent=1)
        f.write('\n')
