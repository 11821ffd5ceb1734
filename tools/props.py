NOT_APPLICABLE = []
PROPS = [
 dict(id='P01', title='Polynomial arithmetic is exact Laurent polynomial ring arithmetic',
  statement='Sums, differences, products, integer multiples and powers of polynomials (with integer coefficients and integer, possibly negative, exponents) are exactly those of the Laurent polynomial ring, also when mixed with plain integers. Results are in canonical form (no zero coefficient and no zero exponent is kept), two polynomials compare equal exactly when all their coefficients agree, and no operation changes its operands.',
  quantifier='all integer coefficients, exponents and variable indices, for operands with a bounded number of monomials',
  why='Tests use a handful of fixed polynomials with small positive coefficients; cancellation, negative exponents, sign and large-coefficient behaviour range over all integers.',
  files=['polynomials.py'], mechanism='dictionary-of-dictionaries representation with merge and cancellation in +, *, ** and the comparison operators',
  note='Every path of the arithmetic over all integer coefficients is compared with an independent reference for Laurent polynomials.'),
 dict(id='P02', title='Polynomial queries, substitution, division and text match algebra',
  statement='The coefficient of a power of a variable, substitution of an integer or a polynomial for a variable, evaluation at several variables, truncation by degree, total degree, remainder, floor quotient and exact quotient by an integer, and division by a linear factor x_i + c are what ordinary algebra says, keep no zero terms and leave the polynomial alone. Equal polynomials hash alike and print alike whatever order their terms were built in, and the text can be read back, so polynomials that differ print differently. p < q (and q > p) says that q - p has only positive coefficients.',
  quantifier='all integer coefficients and exponents within small supports',
  why='The operations are called in tests on a few specific polynomials only; sign, absent terms, negative exponents and construction order are unbounded.',
  files=['polynomials.py'], mechanism='coefficient, substitute, __call__, truncate, total_degree, divide_linear, integer division, __hash__ and __repr__ over the coefficient dictionaries',
  note='Compared with independent evaluation of the same algebra on symbolic coefficients.'),
 dict(id='P03', title='Formal linear combinations (vectors) form a module and keep no zero terms',
  statement='A Vector behaves as a finitely supported function: addition, subtraction, negation and scaling (by integers or polynomials) act pointwise, the coefficient of a key that is absent is zero, zero coefficients are never kept, equality is pointwise, products and positive powers multiply out bilinearly through the vector multiplier, floor division by an integer, and the tests for zero, one basis element, nonnegative and positive coefficients act on the coefficients, and no operation modifies its operands. Equal vectors print and hash alike, and a vector is expressable by others exactly when it lies in their rational span.',
  quantifier='all integer coefficients and keys, including coinciding keys and cancelling coefficients',
  why='Which keys coincide and which coefficients cancel is a choice over all inputs; tests only see particular ones.',
  files=['vectors.py'], mechanism='Vector dictionary with zero dropping, multiplier-based product, fraction-free row reduction',
  note='Keys and coefficients are symbolic; every coincidence of keys is a path.'),
 dict(id='P04', title='Partition operations: transpose, containment, skew, strictness, corner boxes',
  statement='For all partitions (or strict partitions where stated): transpose is an involution describing the same boxes, containment and strictness tests are the pointwise conditions, trimming removes exactly the trailing zeros, sums/complements/skew shapes/box lists contain exactly the boxes they should, and adding a box to a row, column or diagonal gives the unique shape with that extra box or fails if there is none.',
  quantifier='all partitions with a bounded number of parts, parts arbitrary integers where no box list is built',
  why='Tests look at small fixed partitions.',
  files=['partitions.py'], mechanism='tuple manipulation with boundary conditions on first and last parts',
  note='Pointwise specifications over symbolic parts.'),
 dict(id='P05', title='Partition enumerations list every qualifying shape exactly once',
  statement='Generators of partitions of n (strict, even, with bounded parts or rows), of all partitions up to n, of subpartitions between two shapes, of successor shapes, of compositions and peak compositions, of removable-corner subsets, of shifted rims, ribbons and vertical strips each produce every tuple satisfying the defining inequalities exactly once and nothing else, whatever was enumerated before.',
  quantifier='all integer tuples as candidate members, for sizes up to the bound, and every earlier call within the bounds',
  why='Completeness quantifies over all candidate tuples; tests compare counts or short lists.',
  files=['partitions.py'], mechanism='recursive generators and their caches',
  note='The candidate is a symbolic tuple; the solver shows membership in the generated list is equivalent to the defining inequalities.'),
 dict(id='P06', title='Growth diagrams realise RSK and shifted Hecke insertion',
  statement='The growth diagram of a nonnegative integer matrix (given as a dictionary or a set of positions) has at every corner the partition Greene\'s theorem prescribes for the matrix above and left of it: empty borders, sizes equal to the sums of the entries, neighbouring shapes differing by horizontal strips, transposition symmetry, one border per matrix, and odd columns counting the trace of a symmetric matrix. The shifted growth diagram of any word consists of strict partitions that only grow, and its border with the edge and corner labels gives exactly the insertion and recording tableaux of orthogonal Hecke insertion.',
  quantifier='all nonnegative integer matrices of bounded size and all words of bounded length',
  why='Tests draw a few permutations or words; the local rules branch on comparisons between arbitrary shapes and labels.',
  files=['partitions.py', 'tableaux.py', 'insertion.py'], mechanism='growth_diagram and shifted_growth_diagram local rules, from_growth_diagram readings',
  note='Matrix entries and letters are symbolic; the oracle is a maximum over lattice paths, and insertion itself for the shifted case.'),
 dict(id='P07', title='Permutations form a Coxeter group with correct statistics and covers',
  statement='Signed and unsigned permutations compose, invert, compare, hash, take powers and act on integers as bijections do, with one-line notations differing by trailing fixed points denoting the same element. Length, descents, Demazure product, cycle and pair lists, codes, Rothe diagrams, shapes, (fixed-point-free) involution lengths and Grassmannian tests and constructors agree with their definitions on the one-line notation. The lists of all permutations and involutions, of Grassmannian elements by shape, of Bruhat covers and of upper and lower (involution) transitions contain exactly the elements the definitions require, once each.',
  quantifier='all one-line notations of bounded rank, and every integer argument',
  why='Tests evaluate a few permutations per method.',
  files=['permutations.py'], mechanism='oneline tuple with cached statistics; generators by position swaps',
  note='The one-line notation is a tuple of symbolic integers constrained to be a (signed) permutation.'),
 dict(id='P08', title='Word and atom enumerations of permutations are complete and exact',
  statement='For each permutation the enumerations of reduced words, involution words, fixed-point-free involution words, (involution, symplectic) Hecke words up to a length bound, optionally by ascent or peak count, and of atoms list each qualifying word or atom exactly once and nothing else. This holds whatever was enumerated before and however enumerations are interleaved. Building a permutation or involution from a word gives the product the word denotes, and nothing where the word is not of the required kind.',
  quantifier='all integer tuples as candidate words, all small permutations, all interleavings of two enumerations', over=['inputs', 'histories', 'schedules'],
  why='Tests compare counts or individual lists; caches shared between lazily consumed generators make the result depend on history.',
  files=['permutations.py', 'words.py'], mechanism='recursive generators with class-level caches',
  note='The candidate word is a tuple of symbolic integers decided by an independent reference automaton.'),
 dict(id='P09', title='Little bumps preserve length, descents and the recording tableau',
  statement='Bumping a reduced word, involution word or fixed-point-free involution word at a pair of wires or below a covered element yields a word of the same kind and length with the same descents and the same recording tableau under the matching insertion, whose letters only go up and from which some single letter deletion gives the same covered element. When the pair does not describe a cover the word is unchanged.',
  quantifier='all words of the kind with bounded length and letters, and all pairs of wires',
  why='Tests run specific families only; the bumping loop depends on the positions of defects.',
  files=['permutations.py'], mechanism='little_bump, involution_little_bump, fpf_involution_little_bump',
  note='Letters are symbolic, each path is one sequence of bumps.'),
 dict(id='P10', title='Hecke insertion is a bijection with the right statistics',
  statement='Hecke insertion of any word of positive integers, with any record that is compatible with it, gives a strictly increasing tableau and a (multi)set-valued recording tableau of the same shape from which inverse insertion recovers word and record exactly; every such pair of tableaux arises. The first row and column lengths are the longest increasing and decreasing subsequence lengths, the descents of word and recording tableau agree, both recording conventions are transposes of each other, and the reading word of the insertion tableau has the same Demazure product as the word. Every single bumping step can be undone. Records that do not fit the word are refused, and results do not depend on what was inserted before.',
  quantifier='all words and records of positive integers up to the length bound, all insertion histories of two words', over=['inputs', 'histories'],
  why='Tests enumerate words over small alphabets in one convention; letters, ties and records range over all integers.',
  files=['insertion.py', 'tableaux.py'], mechanism='hecke / inverse_hecke bumping with cached states',
  note='Letters and record entries are unbounded symbolic integers; each path is an order type of the letters.'),
 dict(id='P11', title='Orthogonal and symplectic Hecke insertion are shifted bijections',
  statement='Orthogonal Hecke insertion of any word of positive integers and symplectic Hecke insertion of any symplectic Hecke word, with any compatible record, give an increasing shifted tableau and a semistandard shifted marked (multi)set-valued recording tableau without diagonal primes of the same shape, from which the inverse insertion recovers word and record exactly; for orthogonal insertion every such pair arises. The descents of word and recording tableau agree, the two conventions differ by switching off-diagonal primes, recording tableaux extend step by step, every bumping step can be undone, symplectic diagonals are even, and the reading word of the insertion tableau has the same (fixed-point-free) involution as the word.',
  quantifier='all words and records of positive integers up to the length bound',
  why='Tests enumerate small alphabets only.',
  files=['insertion.py', 'tableaux.py'], mechanism='orthogonal_hecke, symplectic_hecke and inverses',
  note='Letters are symbolic; the orthogonal letters are unbounded.'),
 dict(id='P12', title='Unpriming the diagonal keeps weight and semistandardness',
  statement='Moving the primed entries of the diagonal of a semistandard shifted set-valued tableau into the columns to the right gives a semistandard shifted tableau (whose boxes may repeat an entry) with the same number of each absolute value, whose rows have each grown by at most one box. Afterwards a diagonal box holds at most one prime, which beside other entries is the largest; a tableau without diagonal primes, and the result itself, are not changed by the operation.',
  quantifier='all semistandard shifted marked set-valued tableaux of bounded shape and number of entries, entries arbitrary nonzero integers',
  why='Tests enumerate one shape with three letters and check only on collisions.',
  files=['insertion.py', 'tableaux.py'], mechanism='unprime_diagonal and setvalued_column_insert',
  note='Entries are unbounded symbolic integers with symbolic signs; each path is one order type.'),
 dict(id='P13', title='Word crystal operators, descents, peaks and quasisymmetrization',
  statement='The crystal operators on words follow the signature rule: raising changes the last unmatched i to i+1 and lowering changes the first unmatched i+1 to i (and is undefined exactly when there is none), they are mutually inverse, keep the descent set, commute at distance two, and act alike on words cut into factors. Descents, weak ascents, peaks (least number of factors without an interior peak), the monotone and unimodal factor counts, and quasisymmetrization (coefficient of a composition = product of the function over the factors) match their definitions.',
  quantifier='all words of bounded length over all integers, every crystal index, every integer-valued function on factors',
  why='Tests act on three or four particular words.',
  files=['words.py'], mechanism='bracketing loops and recursive factorization',
  note='Letters and the crystal index are unbounded symbolic integers; the reference uses extreme prefix sums.'),
 dict(id='P14', title='Tableau editing, queries, reading words and standardization match definitions',
  statement='A Tableau is a finite map from boxes to sorted lists of integers: adding, setting, removing and clearing boxes change exactly those boxes and never the original, and sizes, shapes, rows, columns, restrictions, translations, transposes, weights, orders and last entries are read off the boxes. Semistandardness tests agree with the row and column inequalities, standardization replaces entries by 1..n preserving order, reading words list the entries in the documented order, and descents and string lengths are those of the entries.',
  quantifier='all tableaux with a bounded number of boxes at arbitrary positions and arbitrary integer entries, every argument',
  why='Tests build a few explicit tableaux.',
  files=['tableaux.py'], mechanism='box dictionary with functional updates, comparisons between neighbouring boxes',
  note='Positions and entries are symbolic integers.'),
 dict(id='P15', title='Tableau crystal operators form a crystal and keep semistandardness',
  statement='For set-valued and multiset-valued semistandard tableaux, the raising and lowering operators with index i are undefined exactly when the reading-order signature has no unmatched entry, otherwise return a semistandard tableau of the same shape and kind whose weight moves one unit between i and i+1, and are mutually inverse. For multiset-valued tableaux the reading word determines the tableau and the operators act on it as on words.',
  quantifier='all semistandard (multi)set-valued tableaux of bounded shape and number of entries, entries and index arbitrary',
  why='Tests run over a few components only.',
  files=['tableaux.py'], mechanism='bracketing of boxes and moves between neighbouring boxes',
  note='Entries are symbolic; the reference is the signature rule.'),
 dict(id='P16', title='Tableau enumerators list each filling once and counts agree with lists',
  statement='The enumerators of semistandard, marked, shifted, set-valued, (marked) reverse plane partition, standard, KOG and KLG tableaux of a (skew, shifted) shape list exactly the fillings satisfying the defining inequalities, each once, under every diagonal convention. The corresponding counting functions give for each partition weight the number of listed tableaux with that weight. The co-Pieri listing contains every one-letter set-valued filling over every inner shape obtained by removing corners, once, under its number of entries.',
  quantifier='all fillings of shapes of bounded size by (sets of) nonzero integers',
  why='Completeness quantifies over all fillings; tests compare a few lists or totals.',
  files=['tableaux.py', 'partitions.py'], mechanism='recursive enumeration by strips with caches',
  note='The candidate filling is symbolic; the solver shows membership in the list equals the inequalities.'),
 dict(id='P17', title='Symmetric polynomials form a ring agreeing with ordinary polynomials',
  statement='Sums, differences, products, powers and integer or beta multiples of symmetric monomials and symmetric polynomials are those of the ordinary polynomials they stand for, which are sums over distinct rearrangements. Terms are canonical, equality is coefficientwise (also against integers), truncation, lowest and highest degree terms and serialization depend only on the polynomial, and results do not depend on which products were computed before.',
  quantifier='all integer coefficients (and powers of beta) and all parts within small supports, all short histories of products', over=['inputs', 'histories'],
  why='Tests multiply a few particular functions.',
  files=['symmetric.py', 'vectors.py', 'polynomials.py'], mechanism='monomial products by destandardization with a product cache',
  note='Parts and coefficients are symbolic; the reference expands over rearrangements.'),
 dict(id='P18', title='Expansions into Schur-like bases are exact and recover all coefficients',
  statement='Expanding any combination of elements of a basis (Schur, P, Q, stable Grothendieck G, GP, GQ and their mn variants, dual g, gp, gq and their mp variants, transposed j, jp, jq) with integer or beta-polynomial coefficients returns exactly these coefficients and no zero terms; expansions of arbitrary symmetric polynomials, and expansions into the S-families, add up to the polynomial. The omega and free expansions follow their definitions.',
  quantifier='all coefficients of combinations of a bounded number of basis elements of bounded degree, all small symmetric polynomials',
  why='Tests expand particular functions; cancellation and beta-dependent coefficients are unbounded.',
  files=['symmetric.py', 'vectors.py'], mechanism='triangular elimination by leading terms',
  note='Coefficients are unbounded symbolic integers; each path is one cancellation pattern.'),
 dict(id='P20', title='Box-adding and removing operators act linearly as their shape rules prescribe',
  statement='The operators indexed by a diagonal that add a box to a shifted shape (or multiply by beta when the box is already a corner), or remove a row or column ribbon with signed powers of beta, act on every combination of strict partitions by extending these rules linearly, keep coefficients, and leave their argument alone. The composite operators AL, AR, R and C are the ordered products of the factors one plus variable times operator. The horizontal and vertical strip operators add exactly the boxes of the given diagonals in one row or column when the result is a strict partition and give nothing otherwise.',
  quantifier='all strict partitions of bounded size, all integer (and beta) coefficients, all indices and intervals',
  why='Tests apply operators to single shapes with coefficient one.',
  files=['operators.py', 'dualops.py', 'partitions.py'], mechanism='corner search on diagonals and dictionary accumulation',
  note='Shapes, indices and coefficients are symbolic; the reference works on part inequalities.'),
 dict(id='P21', title='Formal row and column operators form the stated monomial algebra',
  statement='Box operators add, subtract, negate and scale (by integers and polynomials, which act as multiples of the identity) coefficientwise; products concatenate words and add beta exponents, and vanish exactly when two neighbouring letters are equal or opposite, so that multiplication is associative and distributive. String factors rK and cK mean the letters K and -K on either side, filtering keeps exactly the words allowed by the multiplicity bound, the commutator of order n is the filtered difference of the two products of the generating row factors in opposite orders, equality is equality of all coefficients and operands are never changed.',
  quantifier='all letters, beta exponents and coefficients for a bounded number of terms and letters',
  why='Tests multiply three particular elements.',
  files=['boxes.py', 'vectors.py'], mechanism='vector product with relation-based multiplier',
  note='Letters and coefficients are unbounded symbolic integers; each path is one coincidence pattern.'),
 dict(id='P19', title='Schur-like symmetric functions equal tableau sums and classical formulas',
  statement='Every function of the families s, P, Q, S, G, GP, GQ, GS, g, gp, gq, gs, j, jp, jq, js (also skew, doublebar, beta-negated, degree-bounded, slow and utils-named variants) is the sum over the defining tableaux of the shape with its sign and power of beta, zero when the inner shape is not contained, and independent of earlier calls. G, s, GP, GQ satisfy their determinant and symmetrization formulas, G/g, GP/gq and GQ/gp their Cauchy identities, and splitting off a variable gives the branching rule. The stable Grothendieck polynomials of (fixed-point-free, signed) permutations are the sums over Hecke words.',
  quantifier='all exponents, all integer degree bounds, all small shapes, permutations and call histories', over=['inputs', 'histories'],
  why='Tests compare functions with each other on a few shapes; no independent formula is evaluated.',
  files=['symmetric.py', 'tableaux.py', 'utils.py', 'permutations.py', 'words.py'], mechanism='counting tableaux by strips with caches, quasisymmetrization of words',
  note='Compared at symbolic exponents with an independent enumeration of fillings, with formulas cleared of denominators, and with a 0-Hecke product.'),
 dict(id='P22', title='Crystal graphs list all elements and are seminormal type A crystals',
  statement='Cutting a word into a given number of weakly increasing (or strictly decreasing) factors lists every factorization once. Word, tableau and shifted crystal generators contain every factorization or (shifted) set-valued tableau of their kind exactly once, their edges are the values of the lowering operators, which are injective, move one unit of weight, change at most one letter of the other factors and have string lengths differing by the weight difference; every component has one highest weight element and a Schur polynomial as character. Components and strings are computed correctly for any edges.',
  quantifier='all words and graphs of bounded size, all small permutations, shapes, ranks and excesses',
  why='Tests compare one list of factorizations; graph laws are never asserted.',
  files=['crystals.py', 'insertion.py', 'tableaux.py', 'permutations.py'], mechanism='factorization recursion, insertion-conjugated operators, graph search',
  note='Letters, edges and candidates are symbolic; characters are compared with an independent enumeration.'),
 dict(id='P23', title='Valued-set tableaux: groups, listings and weight-swapping involutions',
  statement='A valued-set tableau is a shifted (skew) semistandard tableau whose equal neighbouring entries (unprimed in a row, primed in a column) may be joined into groups; joins of other boxes are refused. Group ends, starts, singletons, primed groups, runs of a value, weight (number of groups of each value), unpriming, equality and hashing follow this definition, and the listings contain every (semistandard or interstandard) tableau with every grouping exactly once. The forward move is a bijection from semistandard to interstandard tableaux undone by the backward move. The transition at an index is an involution on semistandard tableaux that swaps the two weights, keeps all other entries and groups and the number of primes on the diagonal, and never changes its argument.',
  quantifier='all fillings, groupings and indices for all skew shifted shapes of bounded size',
  why='Tests enumerate tableaux in two letters only, and the definitions of the group queries are never asserted.',
  files=['vst.py', 'tableaux.py', 'partitions.py'], mechanism='grouping recursion, forward/middle/backward moves, caches',
  note='Entries and join bits are symbolic; the reference reads groups off the join bits.'),
 dict(id='P24', title='Printed forms show exactly the object and can be read back',
  statement='The text of a permutation (cycles or one-line notation, also in tex), of a tableau (grid with bottom row first, aligned columns, tex) and of a valued-set tableau (entries, with a wall missing exactly between joined boxes), of symmetric polynomials and box operators, of shape diagrams (straight, skew, shifted, several side by side), of box diagrams and of (involution, fixed-point-free involution) wiring diagrams shows exactly the object, so that reading it gives the object back; it does not depend on the order in which the object was built. A tableau given as text is the tableau written there. Crystal drawings contain one file for each component and one for all, listing exactly the labelled edges.',
  quantifier='all objects of bounded size',
  why='Tests only print; no text is ever compared.',
  files=['permutations.py', 'tableaux.py', 'vst.py', 'symmetric.py', 'vectors.py', 'boxes.py', 'partitions.py', 'words.py', 'crystals.py'],
  mechanism='string assembly with signs, primes, padding and row order',
  note='Entries, letters, positions and flags are symbolic and made concrete by the solver where text is produced; files and graphviz are replaced by recorders.'),
]
