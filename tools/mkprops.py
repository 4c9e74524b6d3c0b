#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the common texts stay consistent)."""
import json, os
F = 'schubertpy/'
AG, GR, IG, OG, QC, LC, SC, PA, MT, MIX, KS, HA, CB = (F + x + '.py' for x in (
    'abstract_grassmannian', 'grassmannian', 'isotropic_grassmannian', 'orthogonal_grassmannian', 'qcalc', 'lc',
    'schur', 'partition', 'mult_table', 'utils/mix', 'utils/kstrict', 'utils/hash', 'csv_bijection'))
SG = 'schubertsage/conversion.py'

SP = ('every supported space: Gr(m,N) with 0<=m<=N, IG(m,2n) with 0<=m<=n, OG(m,2n+1) with 0<=m<=n, '
      'OG(m,2n+2) with n>=1 and 1<=m<=n+1')
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                          'mechanism': [{'name': a, 'where': b} for a, b in mech],
                          'observe_at': observe, 'hook_needed': None}})


p('C01', 'Classical Pieri products are exact in every space',
  'For every supported Grassmannian (ordinary, symplectic, odd and even orthogonal), every special Schubert class '
  '(in even orthogonal type both middle ones, the second written with a negative index) and every Schubert class, '
  '`pieri` returns exactly the classical product, with every term and every multiplicity of the Pieri rule of that '
  'space and nothing else. On linear combinations it acts term by term, with coefficients (numbers and q) kept.',
  ['inputs', 'configurations'], SP + '; every special class; every Schubert class and linear combination',
  'The tests compare a fixed list of products in Gr(m,N), IG and OG of n<=3; the rule must hold for every space, '
  'partition and special class, including larger k, multi-digit parts and the type D tie-breaking cases they never reach.',
  [GR, IG, OG, QC, AG],
  [('type A strip enumeration', GR + ':pieriA_inner, ' + QC + ':_pieri_fillA/_pieri_itrA'),
   ('k-strict target enumeration', QC + ':pieri_set'), ('multiplicities', QC + ':count_comps'),
   ('type D splitting and tie breaking', OG + ':pieriD_inner/_dcoef')],
  ['return value of pieri(p, x) on the public Grassmannian classes'])
p('C02', 'Quantum Pieri products are exact in every space',
  'For every supported Grassmannian, every special Schubert class and every Schubert class, `qpieri` returns exactly '
  'the quantum product: the classical terms plus every q-correction (q, q^2, and q1, q2, q1*q2 for OG(n,2n+2)) with '
  'its exact coefficient, as integers and without missing or extra terms. It extends linearly over q.',
  ['inputs', 'configurations'], SP + '; every special class; every Schubert class and linear combination over the q variables',
  'The sampled cases cover n<=3; the quantum corrections switch on only for particular partitions (full last row, '
  'maximal first part) and differ by type and by k=0, k=1, k>1, so a finite list leaves most branches of most spaces unexecuted.',
  [GR, IG, OG, QC, AG],
  [('type A q terms', GR + ':qpieriA_inner'), ('type C q terms', IG + ':qpieriC_inner'),
   ('type B q terms', OG + ':qpieriB_inner'), ('type D q terms incl. q1,q2', OG + ':qpieriD_inner'),
   ('removing the first row / hook', QC + ':_part_star/_part_tilde')],
  ['return value of qpieri(p, x)'])
p('C03', 'Giambelli formulas are polynomials in special classes with the right value',
  'For every class, product or combination of Schubert classes, `giambelli` and `qgiambelli` return a polynomial in '
  'which only special Schubert classes (and q variables, in the quantum case) occur. Multiplying that polynomial out '
  'with the (quantum) Pieri rule gives exactly the element that was passed in.',
  ['inputs', 'configurations'], SP + '; every Schubert class and every polynomial expression in Schubert classes',
  'Tests pin about a dozen printed formulas; correctness is a statement about the value of the formula for every class of '
  'every space, and the recursion depends on the order of Pieri terms and on the type D sign conventions.',
  [AG, QC, LC], [('recursion', AG + ':giambelli_rec/giambelli_rec_inner'), ('special class <-> number', AG + ':num2spec/spec2num')],
  ['return value of giambelli(x), qgiambelli(x)'])
p('C04', 'Classical products, actions and Schubert expansions are exact',
  'For every supported Grassmannian, `mult(x, y)`, `act(f, y)` (f a polynomial in special classes) and `toS(f)` (f any '
  'polynomial in Schubert classes) return exactly the element of the cohomology ring they denote, written in the '
  'Schubert basis with exact coefficients. The result is an expanded linear combination of Schubert classes of that space.',
  ['inputs', 'configurations'], SP + '; all pairs of elements, all polynomials',
  'A multiplication table is quadratic in the number of classes and polynomials are unbounded; the recorded brute-force '
  'table stops at very small spaces and pairs of single classes.',
  [AG, LC, QC], [('acting by a polynomial one variable at a time', AG + ':act_lc'), ('mult = act after giambelli', AG + ':mult/toS')],
  ['return values of mult, act, toS'])
p('C05', 'Quantum products, actions and Schubert expansions are exact',
  'For every supported Grassmannian, `qmult(x, y)`, `qact(f, y)` (f a polynomial in special classes) and `qtoS(f)` (f any '
  'polynomial in Schubert classes) return exactly the element of the small quantum cohomology ring they denote, including '
  'every power of q (or q1, q2) with its exact coefficient. The result is an expanded combination of Schubert classes with coefficients polynomial in the q variables.',
  ['inputs', 'configurations'], SP + '; all pairs of elements, all polynomials',
  'Higher powers of q and the q1/q2 split appear only for particular long products; the tests list a few of them for n<=3.',
  [AG, LC, QC, OG, IG, GR], [('acting by a polynomial one variable at a time', AG + ':act_lc'), ('qmult = qact after qgiambelli', AG + ':qmult/qtoS')],
  ['return values of qmult, qact, qtoS'])
p('C06', 'Products obey the laws of a commutative ring, and results can be fed back',
  'For any three elements x, y, z of any supported space (integer or rational coefficients, with q variables in the quantum '
  'case) both `mult` and `qmult` are commutative, associative, distributive over sums and have S[] as unit, and scalars and '
  'q variables move freely in and out of either factor. Results of any operation can be passed as input to any later one with the same outcome as the equivalent hand-written expression.',
  ['inputs', 'histories', 'configurations'], SP + '; all triples of elements; chains of operations',
  'Laws are universally quantified over triples of elements; tests multiply single classes once and never feed a result back in.',
  [AG, LC], [('act_lc', AG + ':act_lc'), ('apply', LC + ':LinearCombination.apply')], ['return values of mult and qmult over chained calls'])
p('C07', 'Products are homogeneous with non-negative integer structure constants',
  'Every term q^d*S[nu] in a classical or quantum product of two Schubert classes has a strictly positive integer coefficient and '
  'satisfies |nu| + d*deg(q) = |lambda| + |mu|, with deg(q) as reported by the space (in OG(n,2n+2) q1 and q2 each have that degree). '
  'The classes S[nu] are always Schubert classes of the space, written in canonical form.',
  ['inputs', 'configurations'], SP + '; all pairs of Schubert classes',
  'Needs every pair in every space; no existing test looks at degrees or signs.',
  [AG, GR, IG, OG, QC], [('degree bookkeeping', 'degree_q of the three spaces'), ('terms', AG + ':act_lc')],
  ['terms of mult, qmult, pieri, qpieri results; degree_q()'])
p('C08', 'Setting q to zero gives the classical answer',
  'For every supported space and every input free of q, the q-free part of `qpieri`, `qact`, `qmult` and `qtoS` equals the result of '
  '`pieri`, `act`, `mult` and `toS` on the same input. Classical operations never introduce a q variable.',
  ['inputs', 'configurations'], SP + '; all q-free inputs',
  'A relation between two code paths over all inputs; the tests never compare the two.',
  [AG, GR, IG, OG], [('shared recursion with different Pieri rules', AG)], ['pairs of classical and quantum results'])
p('C09', 'dualize computes Poincare duals',
  'For Schubert classes x, y of complementary dimension in any supported space, the coefficient of the point class in `mult(x, y)` is 1 if '
  'y equals `dualize(x)` and 0 otherwise. `dualize` permutes the Schubert classes, sends dimension d to complementary dimension, is its own inverse and acts term by term on combinations.',
  ['inputs', 'configurations'], SP + '; all pairs of classes',
  'Tests dualize a handful of classes; duality relates the index conversions, the type D exchange rule and the whole multiplication.',
  [GR, IG, OG, QC], [('dual index set', QC + ':dualize_index_inner'), ('conversions', QC + ':part2index*/index2part*')],
  ['dualize results against mult results'])
p('C10', 'Schubert basis, generators and descriptive data describe the right space',
  'For every supported space, the listed Schubert classes are exactly its Schubert basis, each once; the generators are exactly its special '
  'classes; the point class is the unique class of top degree. The reported type, parameters (k,n), name (m,N) and deg(q) (also in the printed form) are those of the space that was constructed.',
  ['configurations'], SP,
  'One must enumerate a combinatorially large basis for every (m,N); tests list a few small spaces.',
  [GR, IG, OG, KS, QC], [('basis enumeration', KS + ':all_kstrict, ' + QC + ':part_gen'), ('descriptive data', 'get_type_data/__str__/degree_q')],
  ['schub_classes(), generators(), point_class(), get_type_data(), degree_q(), str()'])
p('C11', 'Partitions and index sets are converted by a bijection',
  'In every supported space `part2index` sends each Schubert class to the index set of its Schubert variety, and `index2part` sends that set back to the same class, '
  'type D second-kind classes included. Distinct classes get distinct increasing index sets, exactly the admissible ones, and combinations are converted term by term.',
  ['inputs', 'configurations'], SP + '; all classes and all admissible index sets',
  'Tests check isolated examples of each direction; injectivity, admissibility and the round trip are statements about the whole basis.',
  [QC, GR, IG, OG], [('part2index', QC + ':part2indexA/B/C/D_inner'), ('index2part', QC + ':index2partA/B/C/D_inner')],
  ['part2index(x), index2part(x)'])
p('C12', 'Partitions and partition pairs are converted by a bijection',
  'In types B, C and D `part2pair` splits each k-strict partition into the conjugate of its first k columns and what lies to the right of them, and `pair2part` puts '
  'the same class (including the type D marker) together again. Both act term by term, with q and numerical coefficients untouched.',
  ['inputs', 'configurations'], 'every IG and OG space; all classes and combinations',
  'Only a few examples are tested; the round trip must hold for every class of every space.',
  [QC, IG, OG], [('part2pair', QC + ':part2pair_inner'), ('pair2part', QC + ':pair2part_inner')], ['part2pair(x), pair2part(x)'])
p('C13', 'Type exchange in even orthogonal Grassmannians is the outer automorphism',
  'In OG(m,2n+2) `type_swap` exchanges the two classes of each partition that contains k and fixes all others, `schub_type` reports 0, 1 or 2 accordingly, and `miami_swap` exchanges '
  'exactly those with an odd number of parts greater than k; both are involutions. `type_swap` is compatible with classical and quantum products (with q1 and q2 exchanged when k=1), and both operations are the identity outside type D.',
  ['inputs', 'configurations'], SP + '; all classes, combinations and products',
  'The automorphism property links the exchange to every product; the tests look at single partitions.',
  [OG, QC, AG], [('type_swap', QC + ':type_swap_inner'), ('miami_swap', AG + ':static_miami_swap_inner'), ('schub_type', OG + ':schub_type')],
  ['type_swap, miami_swap, schub_type, mult, qmult'])
p('C14', 'The rim-hook product agrees with the quantum product',
  'On every ordinary Grassmannian, for all elements x and y (single classes or combinations), `qmult_rh(x, y)` is the same element as `qmult(x, y)`, including all signs cancelling out and all powers of q.',
  ['inputs', 'configurations'], 'Gr(m,N), all m<=N; all pairs of elements',
  'The two algorithms share little code and were only ever run on a handful of products without q^2 terms.',
  [GR, PA], [('rim-hook reduction', GR + ':qmult_rh'), ('removal', PA + ':remove_rim_hooks')], ['qmult_rh(x,y), qmult(x,y)'])
p('C15', 'Rim hook removal removes real rim hooks and counts them correctly',
  'For a partition that does not fit the given grid and a hook size, `remove_rim_hooks` returns a partition that fits the grid, reached by removing as many rim hooks of that size as it reports, with the reported '
  'total height the number of rows they occupy. If no sequence of such removals reaches the grid it reports zero hooks and no partition, and the partition it was called on never changes.',
  ['inputs'], 'all partitions, hook sizes and grids the partition does not fit in',
  'Eight examples are tested, all with the first component only; counts and heights (the signs) are never looked at.',
  [PA], [('removal loop', PA + ':Partition.remove_rim_hooks'), ('validity of partitions', PA + ':is_valid_part')], ['Partition.remove_rim_hooks, Partition.is_in_range'])
p('C16', 'All accepted spellings of the same input give the same answer',
  'Every operation gives the same result for the same element no matter whether it is passed as text, as a LinearCombination, as a sympy expression, as a Schur object or as a list of parts (where the element is a single class), '
  'and no matter how the text is spaced, ordered, bracketed or written (^ or **, factors in any order, expanded or not).',
  ['inputs'], SP + '; every operation, element and spelling',
  'Tests use one spelling per call.',
  [AG, GR, IG, OG, LC, SC], [('input normalisation', LC + ':LinearCombination.__init__'), ('list shortcuts', 'pieri/part2index/... of the spaces')],
  ['results of every public operation under several spellings of its arguments'])
p('C17', 'Results depend only on the arguments, not on history',
  'Every operation returns the same element whatever was computed before in the process: on this or other spaces (of the same or another type and size), on the same or a fresh or cloned instance, in any order, after failed calls, and after the caller has modified lists it was handed. '
  'No operation modifies the arguments it is given or results it returned earlier.',
  ['histories', 'inputs'], 'all sequences of calls over any number of instances',
  'Tests call each operation once on a fresh object; unbounded caches keyed on arguments and shared objects only misbehave on particular histories.',
  [HA, AG, GR, IG, OG, MIX, LC], [('argument-keyed memoisation', HA), ('shared cached values', AG + ':giambelli_rec_inner, pieri*_inner')],
  ['result of each call in a long history against the same call in a pristine process'],
  [('memo tables', 'results of Pieri and Giambelli steps kept for the life of the process', HA)])
p('C18', 'Concurrent use from several threads gives the sequential answers',
  'When several threads use the library at the same time, on shared or separate instances and with overlapping or different spaces and arguments, each call returns exactly what it returns when run alone, and none fails or hangs.',
  ['schedules', 'inputs'], 'all interleavings of calls from several threads',
  'The tests are single-threaded (the only threaded one needs a file that is not in the repository), and any interleaving of the shared caches is possible.',
  [HA, AG, GR, IG, OG, LC], [('lru caches shared by threads', HA), ('no per-call state on instances', AG)],
  ['results of calls made concurrently under injected thread switches'], [('memo tables', 'shared by all threads', HA)])
p('C19', 'Output is reproducible across processes',
  'The printed result of every operation, the order of the listed Schubert classes and generators, tables and expansions are the same text in every process, whatever the hash seed and settings of the interpreter (optimisation, locale, working directory, the cache of SymPy) and the order in which operations are run.',
  ['configurations', 'histories'], 'all processes, hash seeds and operation orders',
  'The test run fixes PYTHONHASHSEED=0; set and dictionary orders only show under other seeds.',
  [QC, SC, LC, KS], [('sorting of set contents', QC + ':sort_part, ' + SC + ':unique_schur_list'), ('variable order', AG + ':act_lc')],
  ['standard output of the same script in processes with different seeds'])
p('C20', 'Printed results read back as the same element',
  'The text printed for any LinearCombination or Schur object is in the documented notation (S[a,b,...], q, ^, integers and fractions) and denotes its exact value, so constructing a new object from it gives an equal one; nested (pair) indices, empty partitions, trailing zeros and parts with several digits included. '
  'Parsing a text preserves its value exactly.',
  ['inputs'], 'all polynomial expressions in S[...] and q variables',
  'Round trips are only exercised implicitly, with one-digit parts.',
  [LC, SC, F + 'utils/const.py'], [('symbol encoding', F + 'utils/const.py'), ('parsing', LC + ':__init__, ' + SC + ':toSchur')],
  ['str() of LinearCombination and Schur, their constructors'])
p('C21', 'schur_expansion lists exactly the terms of a combination',
  'For an expanded linear combination, `schur_expansion` gives the coefficient (number or q-polynomial term) and the partition of every term, in increasing order of the partition, so that summing coefficient*S[partition] gives the combination back exactly. '
  'With include_q=False exactly the terms containing a q variable are left out, and an expression with a product or power of Schubert classes is refused with ValueError.',
  ['inputs'], 'all linear combinations, with and without q',
  'Three fixed expressions are tested.',
  [LC], [('expansion', LC + ':_schur_expansion')], ['LinearCombination.schur_expansion'])
p('C22', 'Applying a function to a combination extends it as a ring map over scalars',
  'Applying a function from partitions to Schubert expressions replaces every S[...] in the expression by its image and leaves numbers and q variables alone, so on linear combinations it is the linear extension and on polynomials the ring homomorphism. '
  'The function receives the partition exactly as written, and the original combination is not changed.',
  ['inputs', 'programs'], 'all expressions and all functions returning a class, a combination or a number',
  'Tests apply four functions to four expressions.',
  [LC, QC], [('recursive application', LC + ':apply/apply2'), ('apply_lc', QC + ':apply_lc')], ['LinearCombination.apply, apply2, apply_lc'])
p('C23', 'Multiplication tables contain every product in its place',
  'The classical and quantum multiplication table of any supported space has one row and one column per Schubert class, in the order of the listed classes, and each entry is the corresponding (quantum) product. '
  'The matrix form has the same entries in the same places (and belongs to the caller: changing it leaves the table as it is), and printing shows them.',
  ['configurations'], SP,
  'The tables have no test at all.',
  [MT], [('filling', MT + ':AbstractMultTable.__init__')], ['MultTable/QMultTable: df, to_matrix(), print(), str()'])
p('C24', 'Only existing spaces can be constructed, and clones are the same space',
  'Constructing a space succeeds exactly for integers 0<=m<=N in Gr(m,N), 0<=m<=N/2 with N even in IG(m,N) and 0<=m<=N/2 in OG(m,N); other integers raise ValueError and non-integers TypeError, at once. '
  'A clone of a space is a new object that describes the same space and gives the same results.',
  ['inputs', 'configurations'], 'all constructor arguments; all supported spaces',
  'Nothing tests the refusals systematically, or clones of isotropic and orthogonal spaces.',
  [GR, IG, OG, AG], [('validation', '__init__ of the three spaces'), ('clone', AG + ':clone')], ['constructors, clone()'])
p('C25', 'Schur polynomials are exact',
  'The polynomial printed for a Schubert class in n variables is exactly its Schur polynomial: symmetric, homogeneous of the size of the partition, with the number of semistandard tableaux of each content as coefficients, and 0 when there are more parts than variables. '
  'Computing it leaves the class unchanged.',
  ['inputs'], 'all partitions and numbers of variables n>=1',
  'One polynomial is tested.',
  [SC, MIX], [('recursion over variables', MIX + ':SchurPol')], ['Schur.to_polinomial_str(n)'])
p('C26', 'Pictures of partitions show exactly the boxes of the partition',
  'Every rendering of a partition or Schubert class (the text diagrams, the LaTeX/TikZ pictures, the plot and the exported PNG) shows exactly one box per unit in each row, in row order and left-aligned, with the class as label where one is shown. '
  'The side-by-side text picture of a linear combination shows every term in order with its coefficient, the empty partition and filtered q terms included.',
  ['inputs'], 'all partitions and linear combinations',
  'No rendering is tested.',
  [SC, PA, LC, MIX], [('diagrams', MIX + ':yd/partition_to_ascii/embed_partition'), ('latex, plot', SC), ('side by side', LC + ':draw_ascii_partition')],
  ['standard output, returned LaTeX, matplotlib figure, PNG file'])
p('C27', 'Conversion to and from SageMath keeps the class',
  'Converting a Schur object to a SageMath Schur function and back gives the same partition, a SageMath Schur function of a partition converts to the Schur object of that partition and back to itself, and a SageMath symmetric function in another basis is refused with ValueError.',
  ['inputs'], 'all partitions',
  'The Sage package has no test.',
  [SG], [('conversion', SG)], ['sage_schur_to_schur, schur_to_sage_schur under the SageMath interpreter'])
p('C28', 'The caching decorators never change what a function returns',
  'A function or method wrapped by the caching decorators returns for every call (lists, tuples, numbers, positional or keyword arguments, any cache size, any eviction history, from several threads) the value the unwrapped one gives for the same arguments, separately for each object and each wrapped function. '
  'Repeating a call with equal arguments within the cache size does not run the function again, exceptions pass through and are not remembered, and list arguments are not modified.',
  ['inputs', 'histories', 'schedules'], 'all call histories of cached functions and methods',
  'Two functions with four calls are tested.',
  [HA], [('hashable_lru_cache', HA), ('hashable_lru_cache_method', HA)], ['values and call counts of decorated probe functions'])
p('C29', 'Partition enumeration and conjugation helpers are exact',
  'Enumerating k-strict partitions in a box gives each of them exactly once, enumerating the partitions below a rectangle gives each exactly once, conjugation is the exact transpose (an involution), clipping removes exactly the trailing zeros, and de-duplicating a list of classes keeps each distinct class once, sorted. '
  'None of them changes its argument.',
  ['inputs'], 'all boxes with k<=columns, all partitions, all lists of classes',
  'Each helper is tested on a few small lists.',
  [KS, QC, PA, SC], [('all_kstrict', KS + ':all_kstrict'), ('part_gen, part_conj', QC), ('unique_schur_list', SC)],
  ['all_kstrict, part_gen, part_conj, part_clip, unique_schur_list'])
p('C30', 'The table comparison accepts exactly equivalent result files',
  'Comparing two result files (rows operand;operand;result) succeeds exactly if they contain the same set of rows, up to the order and repetition of rows, blank lines and the way the result expression is written. '
  'Any row whose operands or whose value differs, is missing or is extra makes it fail.',
  ['inputs'], 'all pairs of result files',
  'Used once by the brute-force test, on two files that agree.',
  [CB], [('canonical row set', CB + ':_read_csv_transformed')], ['check_bijection_with_permutation on generated files'])
p('C31', 'Arithmetic on classes and combinations is exact polynomial arithmetic',
  'Sums, differences, products with numbers, q variables or one another, and non-negative powers of LinearCombination objects are LinearCombinations with exactly the value polynomial arithmetic gives, from either side of the operator; for Schur objects +, * and ** with numbers, Schur objects and LinearCombinations give the same value. '
  'Schur objects compare, sort and hash by their partition, consistently with equality, and no operand is changed.',
  ['inputs', 'programs'], 'all arithmetic expressions over classes, combinations, numbers and q variables',
  'Only incidental additions are tested.',
  [LC, SC], [('operators', LC + ':__add__...__rsub__, ' + SC + ':__add__...__pow__'), ('hash and order', SC + ':__eq__/__lt__/__hash__')],
  ['results of operators on LinearCombination and Schur'])
p('C32', 'Meaningless requests are refused and leave no trace',
  'Requests that have no meaning are refused with an exception instead of an answer: pair conversions on ordinary Grassmannians, the type of a class outside type D, acting by a polynomial containing a class with two or more non-zero parts, Schur polynomials in fewer than one variable, sequences that are not partitions where a partition is required, and combinations built from unsupported objects. '
  'After any number of such failures every operation still gives its normal results.',
  ['inputs', 'fault_sequences', 'histories'], SP + '; all invalid requests at any point of a history',
  'A few refusals are tested in isolation, none followed by normal use.',
  [AG, GR, IG, OG, LC, PA, MIX], [('special class test', AG + ':spec2num'), ('type guards', GR + ':part2pair, schub_type'), ('partition validity', PA + ':is_valid_part')],
  ['exceptions raised by invalid calls and results of the calls after them'])

p('C33', 'Isomorphic spaces have the same ring',
  'Where two spaces are isomorphic (or one space has a symmetry), every operation gives corresponding answers under the relabelling of Schubert classes: Gr(m,N) and Gr(N-m,N) by conjugating '
  'partitions; OG(n,2n+1) and OG(n+1,2n+2) with equal labels; IG(1,2n) and Gr(1,2n) with equal labels; the small coincidences OG(2,5), OG(3,6), IG(1,4), Gr(1,4); IG(2,4) and OG(1,5); Gr(2,4) and OG(1,6); '
  'OG(3,7), OG(4,8) and OG(1,8); and the triality of OG(2,8). This covers `pieri`, `mult`, `act`, `toS`, their quantum forms (q corresponds to q), `dualize`, the values of the Giambelli formulas, '
  'the basis, the point class and deg q.',
  ['inputs', 'configurations'], 'every pair of isomorphic supported spaces; every class, combination and polynomial in classes, in any spelling',
  'No test relates two spaces. The two members of a pair run different code (rows and columns of type A, odd and even orthogonal, symplectic and type A), so a change to one of them shows only in the comparison.',
  [GR, IG, OG, QC, AG],
  [('type A', GR + ':pieriA_inner/qpieriA_inner'), ('type C', IG + ':pieriC_inner/qpieriC_inner'), ('type B', OG + ':pieriB_inner/qpieriB_inner'), ('type D', OG + ':pieriD_inner/qpieriD_inner')],
  ['return values of the operations in both spaces'])
p('C34', 'Classical products of related spaces determine each other',
  'Within a family, classical answers are compatible between spaces. Restriction: with k fixed (in type A: when rows or columns are added to the box), `pieri`, `mult`, `act`, `toS` and the values of the Giambelli formulas in '
  'the smaller space are those of the larger one with every class that does not fit the smaller space set to zero (in the arguments as in the result). Types B and C: the classical results in IG(m,2n) '
  'become those in OG(m,2n+1) when every class is multiplied by 2 to the number of its parts greater than k=n-m.',
  ['inputs', 'configurations'], 'every supported space and every larger one of its family with the same k (type A: any larger box); every pair IG(m,2n), OG(m,2n+1); every class, combination and polynomial in classes',
  'No test relates two spaces; the compatibility must hold for all pairs, including spaces far beyond the tables tests can hold.',
  [GR, IG, OG, QC, AG],
  [('strip and target enumeration', GR + ':pieriA_inner, ' + QC + ':pieri_set'), ('multiplicities', QC + ':count_comps'), ('type D splitting', OG + ':pieriD_inner/_dcoef')],
  ['return values of the operations in both spaces'])
p('C35', 'Questions about the shape of an expression or a partition are answered correctly',
  'For every expression written as a sum of monomials in classes, q variables and rational numbers (in any spelling, with terms that merge or cancel, or returned by an operation): `len` is the number of terms of a sum, the number '
  'of factors (a coefficient other than 1 counts) of a single product, otherwise 1; `is_operator` is true for exactly the top-level operator and refuses (ValueError) anything but +, *, ^; `list_schur_oprands` lists, with one entry per operand, '
  'each class of each term and nothing else; `is_valid` holds iff every term is a number or a number times a single class or variable; `has_part_zero_padding` (also on Schur) holds iff a class in it is '
  'written with a trailing zero. For partitions, `is_valid_part`, `part_clip` (exactly the trailing zeros, argument unchanged), `Partition.is_in_range` (negative bounds refused) and '
  '`skew_partition_height` (rows of mu/lambda with at least one box, trailing zeros ignored, ValueError if lambda is not contained in mu) are exact. Asking changes nothing.',
  ['inputs'], 'all sums of monomials in any spelling and all results of operations; all partitions, boxes and nested pairs of partitions',
  'One expression is tested for `list_schur_oprands`; the other queries have no test or one, and depend on how expressions simplify.',
  [LC, SC, PA], [('queries', LC + ':__len__, is_operator, list_schur_oprands, is_valid, has_part_zero_padding'),
                 ('partitions', PA + ':part_clip, is_valid_part, is_in_range, skew_partition_height')],
  ['return values and refusals of the queries; printed form of the expression afterwards'])

p('C36', 'An interrupted call leaves nothing behind',
  'If any call is cut off at any point by an exception that is not its own (Ctrl-C, a caller\'s timeout), its arguments and all objects obtained earlier are unchanged, and every later call, on the same '
  'space, a clone or a new one, including the same call tried again at once, gives exactly what it gives in a fresh process. An interruption that does not reach the caller does not change the answer either.',
  ['fault_sequences', 'histories', 'inputs'], 'all operations in all supported spaces, cut off at any line of the library any number of times, followed by any history',
  'No test interrupts anything; state that is only right when a call runs to its end (memo tables, in-progress marks, fields changed and restored) shows only after a cut at one particular point.',
  [AG, GR, IG, OG, QC, LC, HA], [('operations', AG), ("caches", HA), ('Pieri recursions', GR + ', ' + IG + ', ' + OG)],
  ['results of the calls made after an interrupted call; arguments and earlier results'])
p('C37', 'Copies and pickles are as good as the original',
  '`copy.copy`, `copy.deepcopy` and a pickle round trip (any protocol of the running Python, in the same interpreter or in another one, alone or inside containers) of spaces, Schur, LinearCombination, Partition and table objects '
  'give an object of the same class that prints the same, describes the same space or value, equals and hashes like the original where the class defines equality (Schur), and computes the same answers; it makes no difference whether the original '
  'was used before. Changing a deep copy or an unpickled object does not change the original.',
  ['inputs', 'processes', 'histories'], 'all spaces and values, before and after use; all ways of copying',
  'Nothing tests copying; sending spaces and results to worker processes depends on it.',
  [AG, GR, IG, OG, LC, SC, PA, MT], [('state of spaces and values', AG + ', ' + LC + ', ' + SC + ', ' + PA + ', ' + MT)],
  ['kind, printed form, equality, hash and answers of the copies'])
p('C38', 'Gromov-Witten invariants do not depend on the order of their classes',
  'For Schubert classes a, b, c and a degree d (two degrees where there are q1 and q2) the coefficient of q^d S[dual of c] in a*b equals the coefficient of q^d S[dual of b] in a*c and that of q^d S[dual of a] in b*c, where the duals are those given by '
  '`dualize` and the products by `qmult` or `qpieri` (d = 0: also `mult`, `pieri`). Equivalently (x*y, z) = (x, y*z) for combinations. The quantum product of two classes is never zero.',
  ['inputs', 'configurations'], SP + '; all triples of classes and degrees; all combinations',
  'A statement about three different products at once, for every triple of classes in every space; tests look at single products.',
  [AG, GR, IG, OG, QC], [('products', AG + ':mult/qmult, ' + GR + ', ' + IG + ', ' + OG), ('duality', AG + ':dualize')],
  ['return values of qmult, mult, qpieri, pieri, dualize'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for x in P:
            f.write(json.dumps(x, ensure_ascii=False) + '\n')
    print(len(P), 'properties')
