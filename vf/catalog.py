"""The properties: statement, anchors and what the check of each one assures."""

TRUST = ('Trusts TLC, CPython and the small drivers that call the public API and encode its answers; '
         'bounded: exhaustive inside the stated small scope, seeded sampling beyond it.')

CATALOG = [
dict(id='C01', title='Levenshtein distances are the edit distance, for every pair of strings',
     statement='levenshtein_distance returns the minimum number of single-character insertions, deletions and substitutions between any two strings; limited_levenshtein_distance(k, A, B) returns that same distance when it is at most k and k + 1 otherwise. levenshtein_distance_lte1 tells whether that distance is at most 1, and damerau_levenshtein_distance_lte1 whether one insertion, deletion, substitution or swap of two adjacent characters at most separates the strings. All of them work in any argument order on every code point, including those outside the Basic Multilingual Plane, and retain no memory between calls.',
     forall='all pairs of strings (any length, any code points incl. astral, empty, identical, shared prefixes/suffixes), all limits k >= 0',
     why='the tests sample a few dozen hand-picked pairs; the banded row computation, prefix/suffix trimming and early exits only go wrong for particular length differences, limits and repeated letters.',
     files=['cfog/metrics/levenshtein.pyx'],
     mech=[('prefix/suffix trimming, one-character core shortcut, rolling row', 'cfog/metrics/levenshtein.pyx:levenshtein_distance'),
           ('banded dynamic programming with early exit', 'cfog/metrics/levenshtein.pyx:limited_levenshtein_distance'),
           ('one-mismatch scans', 'cfog/metrics/levenshtein.pyx:levenshtein_distance_lte1')],
     note='EditMachine (the banded algorithm) is model-checked against the recurrence for all pairs of short strings and all limits, every such pair is replayed into the code, plus random longer pairs; TLC judges each answer against the recurrence. ' + TRUST),
dict(id='C02', title='Pairwise connected-components clustering is exact under any schedule',
     statement='Clustering a collection pairwise yields exactly the connected components of the "similar enough" graph whose size is within min_size and max_size, each exactly once and each member exactly once, whether the relation is given as a similarity or as a distance, with or without radius or key function. The answer is the same with one or several processes, for every chunk size and whatever order the workers deliver their results in, and the input is left untouched.',
     over=['inputs', 'schedules', 'configurations'],
     forall='all finite collections and symmetric relations, all min/max sizes, chunk sizes, process counts and delivery orders of worker results',
     why='the tests cluster one list of names once with each option; a lost chunk, a mis-offset pair or an order-dependent union only shows for particular chunk boundaries and delivery orders.',
     files=['fog/clustering/pairwise.py', 'fog/clustering/utils.py'],
     mech=[('chunked upper triangle', 'fog/clustering/utils.py:upper_triangular_matrix_chunk_iter'),
           ('union of pairs', 'fog/clustering/pairwise.py:pairwise_connected_components'),
           ('worker offsets', 'fog/clustering/pairwise.py:pairwise_worker')],
     note='PairwiseMachine explores every schedule of chunks over workers for small graphs; the graphs, bounds and chunk sizes are replayed through the real pool with permuted delivery. ' + TRUST),
dict(id='C03', title='Pairwise fuzzy clusters are exactly the balls of uncovered items',
     statement='In fuzzy mode every returned cluster is one item followed by all the items similar to it, its centre did not belong to an earlier cluster, and sizes respect min_size and max_size. Every item that has a similar item belongs to some cluster unless the size bounds exclude it, for any number of processes and chunk size, and the answer does not depend on the order in which workers deliver.',
     over=['inputs', 'schedules', 'configurations'],
     forall='all finite collections and symmetric relations, size bounds, chunk sizes, process counts and delivery orders',
     why='the tests check one list; missing symmetric halves or wrong skip rules need specific graph shapes.',
     files=['fog/clustering/pairwise.py'],
     mech=[('symmetric adjacency then greedy scan', 'fog/clustering/pairwise.py:pairwise_fuzzy_clusters')],
     note='ScanMachine (fuzzy) is checked for every graph up to 4/5 nodes and every adjacency order; same graphs replayed and judged. ' + TRUST),
dict(id='C04', title='Leader clustering attaches each item to the first similar leader',
     statement='In leader mode items are scanned in order: an item not yet taken becomes a leader and takes every later free item similar to it; clusters never overlap, contain only items similar to their leader (listed first) and respect min_size and max_size. A cluster larger than max_size is dropped and its followers stay available.',
     forall='all finite ordered collections, symmetric relations and size bounds',
     why='one list with the default bounds is tested; the interplay of bounds and already-taken items needs particular orders.',
     files=['fog/clustering/pairwise.py'],
     mech=[('leader scan', 'fog/clustering/pairwise.py:pairwise_leader')],
     note='ScanMachine (leader) checked exhaustively in small scope; same cases replayed. ' + TRUST),
dict(id='C05', title='Blocking compares exactly the items sharing a block',
     statement='Blocking yields the clusters (components, or fuzzy clusters) of the graph that links two distinct items exactly when they share at least one block and are similar; items without a block are never clustered. The answer does not depend on the number of processes, on the delivery order of workers, or on a pair meeting in several blocks.',
     over=['inputs', 'schedules', 'configurations'],
     forall='all collections of distinct items, block assignments (none, one, several, repeated blocks), relations, bounds >= 2, process counts and delivery orders',
     why='tests use one list and one block function; pairs meeting in several blocks and parallel deliveries are never varied.',
     files=['fog/clustering/blocking.py', 'fog/clustering/utils.py'],
     mech=[('block index', 'fog/clustering/blocking.py:blocking'), ('pairs to clusters', 'fog/clustering/utils.py:clusters_from_pairs')],
     note='Judged against the share-a-block graph for enumerated and random assignments. ' + TRUST),
dict(id='C06', title='Key collision groups exactly the items sharing a key',
     statement='With one key per item, or several keys without merging, key collision returns one cluster per key whose bucket size is within min_size and max_size, holding every item with that key once. With several keys and merging it returns the connected components of the share-a-key graph within those bounds; falsy keys never group anything.',
     forall='all collections, key assignments (absent, repeated, shared, falsy), bounds, merging or not',
     why='tests check three fixed lists; bounds with merging, repeated keys of one item and empty keys are not varied.',
     files=['fog/clustering/key_collision.py', 'fog/clustering/utils.py'],
     mech=[('buckets', 'fog/clustering/key_collision.py:key_collision'), ('merging', 'fog/clustering/utils.py:clusters_from_buckets')],
     note='Judged against the bucket definition and the component definition. ' + TRUST),
dict(id='C07', title='Sorted neighborhood compares exactly the items within a window',
     statement='Sorted neighborhood yields the clusters of the graph linking two items exactly when they are similar and, in at least one of the orderings given by the key function(s), fewer than `window` positions apart (stable ordering). Any iterable of items is accepted, including one-shot iterators with several keys.',
     forall='all collections of distinct items, orderings (ties included), windows, relations, size bounds, modes and containers',
     why='tests use one list, one window; off-by-one windows at the tail and multi-pass exhaustion need specific shapes.',
     files=['fog/clustering/sorted_neighborhood.py'],
     mech=[('sliding window', 'fog/clustering/sorted_neighborhood.py:sorted_neighborhood')],
     note='Judged against the window-pair graph. ' + TRUST),
dict(id='C08', title='Adaptive sorted neighborhood follows the accumulative adaptive window',
     statement='Adaptive sorted neighborhood splits the sorted data into consecutive windows: a window of the base size grows while its first and last records are similar, then drops its trailing records that are not similar to their predecessor (never below the base size), and the next window starts after it. It yields the clusters of the similar pairs inside those windows for every data size and every key ordering, and never fails near the end of the data.',
     forall='all collections of distinct items, orderings, base windows >= 2, relations, size bounds and modes',
     why='the single test never makes a window reach the end of the data or shrink.',
     files=['fog/clustering/sorted_neighborhood.py'],
     mech=[('enlargement & retrenchment', 'fog/clustering/sorted_neighborhood.py:full_AA_SNM')],
     note='Judged against the window construction written in TLA+. ' + TRUST),
dict(id='C09', title='Passjoin loses no pair of strings within k edits',
     statement='passjoin returns exactly the clusters of the graph linking two distinct strings when their Levenshtein distance is at most k, in both modes, whether it sorts the strings itself or receives them sorted, for strings of any length including shorter than k+1.',
     forall='all collections of distinct strings, all k >= 0, size bounds, modes, containers',
     why='the tests compare a few lists; the multi-match-aware substring selection drops pairs only for particular length differences and edit positions.',
     files=['fog/clustering/passjoin.py'],
     mech=[('partition & substring selection', 'fog/clustering/passjoin.py:multi_match_aware_substrings'), ('index & verification', 'fog/clustering/passjoin.py:passjoin')],
     note='The segment/substring selection is model-checked for completeness in small scope; code judged against the brute-force edit-distance graph. ' + TRUST),
dict(id='C10', title='Set similarity joins return exactly the pairs above the threshold',
     statement='all_pairs, ppjoin and ppjoin_plus each return every unordered pair of records whose Jaccard, Dice or binary cosine similarity (on token sets) is at least the threshold, once, and no other pair. The token ordering, the presence of a tokenizer, repeated tokens and records without tokens do not change that.',
     forall='all collections of records, thresholds in (0, 1], metrics, token orderings, variants',
     why='the tests compare the variants on one dataset with few thresholds; prefix, positional and suffix filters prune wrongly only for particular overlaps and lengths.',
     files=['fog/clustering/ppjoin.py'],
     mech=[('length/prefix/positional filters', 'fog/clustering/ppjoin.py:ppjoin'), ('suffix filter', 'fog/clustering/ppjoin.py:suffix_filter')],
     note='Judged against exact rational similarity of token sets. ' + TRUST),
dict(id='C11', title='Quickjoin finds exactly the pairs within the radius',
     statement='quickjoin yields the clusters of the graph linking items whose distance is at most the radius (or similarity at least the radius), for any metric, whatever pivots its seed draws, whatever the block size, with or without vantage point trees, with one or several processes. It terminates even when items repeat. With a seed (and no vantage point tree) a repeated call gives the same answer, with several processes too.',
     over=['inputs', 'schedules', 'configurations'],
     forall='all collections in a metric space, radii, seeds, block sizes >= 2, beta in (0, 1], modes, processes and delivery orders',
     why='tests use one list and the default seed; a window partition losing a border pair depends on the pivots drawn and on exact distances.',
     files=['fog/clustering/quickjoin.py'],
     mech=[('ball partition with windows', 'fog/clustering/quickjoin.py:partition'), ('joining windows', 'fog/clustering/quickjoin.py:quickjoin')],
     note='Judged against brute force on integer L1 points and Levenshtein strings over many seeds. ' + TRUST),
dict(id='C12', title='VP-tree clusters are exactly the balls of uncovered items',
     statement='vp_tree returns clusters each made of one item and everything within the radius of it, built around items not covered by an earlier cluster, within the size bounds, and covers every item having a neighbour unless the bounds exclude it (with min_size 1 isolated items form clusters of their own), for any metric and any shape of the tree.',
     forall='all collections in a metric space, radii, size bounds, random vantage points',
     why='one list is tested; pruning errors depend on the vantage points and on exact boundary distances.',
     files=['fog/clustering/vp_tree.py'],
     mech=[('range queries', 'fog/clustering/vp_tree.py:vp_tree')],
     note='Judged relationally against brute-force balls. ' + TRUST),
dict(id='C13', title='The intersection index finds exactly the overlapping items',
     statement='intersection_index yields the clusters of the graph linking two items when the Jaccard or overlap similarity of their token sets is at least the radius (items sharing no token are never linked), in both modes and for every size bound, whatever the order and repetition of tokens.',
     forall='all collections of token sets, radii in (0, 1], metrics, modes, bounds',
     why='one list of strings is tested at one radius; the incremental intersection counts go wrong for repeated tokens or exact thresholds.',
     files=['fog/clustering/intersection_index.py'],
     mech=[('intersection counters', 'fog/clustering/intersection_index.py:intersection_index')],
     note='Judged against exact rational similarity. ' + TRUST),
dict(id='C14', title='MinHash clustering is sound, reproducible and follows its bands',
     statement='minhash clustering only links items whose true Jaccard similarity is at least the radius, always links items with identical non-empty token sets, gives the same answer for the same seed, and with an explicit number of bands links exactly the similar pairs whose signatures agree on all rows of at least one band. Without a given number of bands, it links exactly those for the smallest number of bands b whose threshold (1/b)^(b/h) is at most the radius, capped by the signature length. Without a key, the items are their own tokens.',
     forall='all collections of non-empty token sets, radii, signature lengths, band counts, seeds, numpy or not',
     why='tests run one list with one seed; band slicing errors only lose some candidate pairs.',
     files=['fog/clustering/minhash.py', 'fog/lsh/minhash.py'],
     mech=[('bands', 'fog/clustering/minhash.py:minhash'), ('double check', 'fog/clustering/minhash.py:double_check')],
     note='Signatures are recorded through the public MinHash class with the same seed; TLC recomputes the band collisions. ' + TRUST),
dict(id='C15', title='NN-descent terminates and only returns truly similar neighbours',
     statement='nn_descent and nn_descent_full always terminate, for any number of items and any k, give the same answer for the same seed, and return clusters whose members are linked by pairs truly within the radius, without repeated members and within the size bounds. When k is at least the number of items minus one (so always with two items) every neighbour is kept and the clusters are exactly those of the pairs within the radius.',
     over=['inputs', 'histories', 'configurations'],
     forall='all collections in a metric space, radii, k, seeds, rho, delta > 0, modes',
     why='termination depends on the sampled neighbour lists; tests use one list and one seed.',
     files=['fog/clustering/nn_descent.py'],
     mech=[('neighbour list refinement', 'fog/clustering/nn_descent.py:nn_descent')],
     note='NnDescentMachine explores every initial draw over small point sets (heaps, decreasing variant, termination, exactness with full lists); below a full list soundness, not recall, is claimed: the method is approximate by design. ' + TRUST),
dict(id='C16', title='LSH signatures depend only on the set of tokens, in every process',
     statement='MinHash (numpy or not), SuperMinHash and LSBMinHash signatures depend only on the set of tokens and on the seed: order and repetition of tokens, the process and the hash randomization do not change them. The minhash signature of a union is the row by row minimum of the signatures; similarities are the exact share of agreeing rows (bits for the LSB variant) and estimate the Jaccard similarity. A simhash is the majority vote of the bits of its tokens, every one of its bits varies with the tokens, and simhash distance and similarity are exact normalized Hamming ones.',
     over=['inputs', 'configurations', 'histories'],
     forall='all token collections and containers, signature lengths, precisions, seeds, bit lengths f, processes with different hash seeds',
     why='the tests compare estimates on a few strings in one process; overflow, order dependence and process dependence need particular hash values or several interpreters.',
     files=['fog/lsh/minhash.py', 'fog/lsh/simhash.py'],
     mech=[('minhash signature', 'fog/lsh/minhash.py:MinHash'), ('supermin & lsb variants', 'fog/lsh/minhash.py:SuperMinHash'), ('majority vote', 'fog/lsh/simhash.py:simhash')],
     note='SignatureMachine checks the union law and order independence for all small token sequences and hash tables; sequences replayed into every variant, in several interpreters with different hash seeds. ' + TRUST),
dict(id='C17', title='Set similarities are exact, symmetric and bounded for any container',
     statement='jaccard_similarity, overlap_coefficient, dice_coefficient, binary_cosine_similarity, sparse_binary_cosine_similarity and intersection_size return their mathematical value on the sets of the items given (unless both are empty), whatever the containers, order and repetitions. They are symmetric, stay within 0 and 1, return 1 on equal non-empty sets, and leave their arguments untouched.',
     forall='all pairs of collections (at least one non-empty) given as strings, lists, tuples, generators, sets, dicts or counters',
     why='tests check a few string pairs; swaps of shorter/longer sides, repetitions and identity shortcuts need particular arguments.',
     files=['fog/metrics/jaccard.py', 'fog/metrics/overlap.py', 'fog/metrics/dice.py', 'fog/metrics/cosine.py', 'fog/metrics/utils.py'],
     mech=[('intersection counting', 'fog/metrics/utils.py:intersection_size'), ('jaccard', 'fog/metrics/jaccard.py:jaccard_similarity'), ('binary cosine', 'fog/metrics/cosine.py:binary_cosine_similarity')],
     note='MetricMachine checks symmetry/bounds of the definitions and of the counting loops for all small weighted sets; answers are judged as exact rationals. ' + TRUST),
dict(id='C18', title='Cosine and weighted Jaccard are exact on weighted vectors',
     statement='cosine_similarity, sparse_cosine_similarity, weighted_jaccard_similarity, sparse_dot_product, sparse_norm and sparse_normalize return their mathematical value (up to floating point rounding) for every weighted set, whichever operand has more entries, with null weights or null vectors (similarity 0), and for weights given as integers or floats. Similarities are symmetric and, rounding aside, never exceed 1; operands are left untouched.',
     forall='all pairs of sparse vectors (weights possibly null; negative too for dot, norm and cosine), token sequences counted by cosine_similarity',
     why='tests check single values; the choice of the shorter operand and null weights need particular vectors.',
     files=['fog/metrics/cosine.py', 'fog/metrics/jaccard.py', 'fog/metrics/utils.py'],
     mech=[('sparse cosine', 'fog/metrics/cosine.py:sparse_cosine_similarity'), ('weighted jaccard', 'fog/metrics/jaccard.py:weighted_jaccard_similarity')],
     note='Squares of cosines are compared as exact rationals, signs separately. ' + TRUST),
dict(id='C19', title='Best matching evaluation is the macro average of the best F1 matches',
     statement='best_matching_macro_average matches each truth cluster with the predicted cluster giving the best F1 (restricted to the items of the truth) and returns the averages of the precision, recall and F1 of those matches, as exact values between 0 and 1. It refuses empty inputs, empty clusters, items predicted in several clusters, missing items and, unless allowed, additional items; the order of clusters and items changes nothing but ties.',
     forall='all pairs of clusterings of a finite set, with missing, additional or repeated items, in any container',
     why='the tests check a handful of clusterings; wrong candidate choices show only when several predicted clusters compete.',
     files=['fog/evaluation/best_matching.py'],
     mech=[('candidate selection by F1', 'fog/evaluation/best_matching.py:best_matching_macro_average')],
     note='BestMatchMachine enumerates all truth/predicted clusterings of a small set and checks the candidate loop against the definition; all are replayed. ' + TRUST),
dict(id='C20', title='Labels and clusters convert into each other without loss',
     statement='labels_to_clusters groups items by label in order of first appearance, for sequences, mappings and streams of pairs; clusters_to_labels gives each item the index of its cluster, through the key function if any, as a mapping or as a flat list indexed by item. Converting clusters to labels and back gives the same clusters.',
     forall='all labelings and clusterings, containers, key functions',
     why='the tests check one labeling per container.',
     files=['fog/evaluation/utils.py'],
     mech=[('grouping', 'fog/evaluation/utils.py:labels_to_clusters'), ('labels', 'fog/evaluation/utils.py:clusters_to_labels')],
     note='LabelMachine checks the round trip for all small clusterings; cases replayed and judged. ' + TRUST),
dict(id='C21', title='Bipartite projection links exactly the related nodes of a part',
     statement='monopartite_projection keeps exactly the nodes of the part (with their attributes) and links two of them exactly when they share a neighbour and pass the threshold, with the weight given by the metric (or the number of shared neighbours without metric). The traversal and the all-pairs strategies give the same graph for any node type; a non-bipartite graph is refused when checked, and the input graph is left untouched.',
     forall='all finite bipartite graphs, weights, metrics, thresholds, node types, strategies',
     why='the tests project one graph; traversal shortcuts skip pairs only for particular shapes and orders.',
     files=['fog/graph/projection.py'],
     mech=[('two-hop traversal', 'fog/graph/projection.py:monopartite_projection')],
     note='ProjectionMachine checks the traversal against the definition for all small weighted bipartite graphs; each is replayed. ' + TRUST),
dict(id='C22', title='Floatsam returns the last threshold before a component drifts away',
     statement='floatsam_sparsification always terminates and returns the last threshold, rising from the starting one by steps of the learning rate, before the step that would leave no edge or a second largest connected component (of the edges at or above the threshold) of at least the maximum drifter size; with remove_edges it removes exactly the lighter edges, and never a node. component_sizes and second_largest_component_size are exact for any edge filter.',
     forall='all finite weighted graphs, starting thresholds, learning rates > 0, drifter sizes, node types',
     why='one graph is tested; off-by-one thresholds and non-termination need particular weights.',
     files=['fog/graph/sparsification.py', 'fog/graph/utils.py'],
     mech=[('threshold search', 'fog/graph/sparsification.py:floatsam_sparsification'), ('component sizes', 'fog/graph/utils.py:component_sizes')],
     note='FloatsamMachine explores the threshold search for all small weighted graphs, including termination; replayed. ' + TRUST),
dict(id='C23', title='hashjoin yields exactly the pairs sharing a key, once',
     statement='hashjoin yields every pair of a left and a right item sharing at least one key exactly once, and nothing else, for one key or several keys per item, any iterables (one-shot ones included) and any repetition of keys.',
     forall='all finite left and right collections, key assignments (none, one, several, repeated), containers',
     why='the test joins one dataset; exhausted iterators and repeated keys are not varied.',
     files=['fog/join/hashjoin.py'],
     mech=[('index & probe', 'fog/join/hashjoin.py:hashjoin')],
     note='JoinMachine checks the index-and-probe algorithm for all small key assignments; replayed with every container. ' + TRUST),
dict(id='C24', title='Edit-distance collision keys and blocks never miss a close pair',
     statement='Two strings at Levenshtein distance at most 1 always share a levenshtein_1d_keys key (and only such strings do) and a levenshtein_1d_blocks block; at distance at most 2 they always share a levenshtein_2d_blocks block. The damerau_ variants give the same guarantee when swaps of two adjacent characters also count as one edit. The number of keys stays within the documented bound (linear in the length for keys, at most 4 blocks for 1D and 9 for 2D), and custom flags do not change any of this.',
     forall='all pairs of strings free of the flag characters, all lengths (empty and one-character strings included), all flags',
     why='the tests compare the keys of a handful of words and sample a few pairs; a scheme misses pairs only for particular lengths modulo 2 or 3 and particular edit positions.',
     files=['fog/key/levenshtein.py'],
     mech=[('wildcard neighbourhood', 'fog/key/levenshtein.py:levenshtein_1d_keys'), ('halves', 'fog/key/levenshtein.py:levenshtein_1d_blocks'),
           ('thirds', 'fog/key/levenshtein.py:levenshtein_2d_blocks')],
     note='LevKeyMachine edits a string apart in every way (two edits, all strings up to 3/5 letters of 3 and 6/8 letters of 2) and checks the schemes themselves; every pair it reaches is replayed, plus random longer ones; one class of missed pairs is a known finding. ' + TRUST),
dict(id='C25', title='Omission, skeleton and zig-zag keys follow their definition',
     statement='omission_key is the consonants of the string in the fixed misspelling order then its vowels in order of first appearance; skeleton_key is its first letter, its other unique consonants in order, its other unique vowels in order. Both hold each letter of the deburred string exactly once, ignore case and anything that is not a letter, and are empty exactly for strings without letters; zig_zag reads a string both ways.',
     forall='all strings (any case, accents, scripts, punctuation, repeated letters)',
     why='the tests list thirty words; repeated first letters, vowels after consonants and non-latin letters are barely varied.',
     files=['fog/key/omission.py', 'fog/key/skeleton.py', 'fog/key/misc.py'],
     mech=[('omission key', 'fog/key/omission.py:omission_key'), ('skeleton key', 'fog/key/skeleton.py:skeleton_key')],
     note='KeyScanMachine builds both keys letter by letter and checks them against the definition and the invariances for all short strings; replayed. ' + TRUST),
dict(id='C26', title='Fingerprints keep exactly the normalized, unique, sorted tokens',
     statement='A fingerprint is the sorted set of the whitespace-separated words of the text once split characters become spaces, letters are deburred and lowered, and everything but letters, digits (when kept) and whitespace is dropped; squeezing removes repeated characters inside words, stop words and words shorter than the minimum size are removed (those of exactly that size may be too). The n-gram variant is the sorted set of n-grams of those words put together, the keyers join the tokens of the tokenizers, and fingerprinting a fingerprint changes nothing.',
     forall='all texts (any script, whitespace, punctuation), all options (stop words and minimum size on plain words)',
     why='the tests check about twenty strings; transliterations producing spaces, digits or upper case, odd whitespace and option interplay are not varied.',
     files=['fog/tokenizers/fingerprint.py', 'fog/key/fingerprint.py'],
     mech=[('pipeline', 'fog/tokenizers/fingerprint.py:FingerprintTokenizer.tokenize'), ('keyers', 'fog/key/fingerprint.py:FingerprintingKeyer')],
     note='FingerprintMachine runs the pipeline step by step against the word-wise definition and checks idempotence and the invariances for all short texts; replayed. ' + TRUST),
dict(id='C27', title='n-grams slide over the whole sequence; n-gram keys are its large sub-sequences',
     statement='ngrams (and bigrams, trigrams, quadrigrams) yields every window of n consecutive tokens in order with the type of the given sequence, or the sequence itself when it is shorter than n; join_ngrams rebuilds the string. ngram_keys yields first the joined n-grams, then exactly the joined sub-sequences of them missing no more than the threshold allows.',
     forall='all strings, lists and tuples, all n >= 1, all thresholds',
     why='a few strings are tested.',
     files=['fog/tokenizers/ngrams.py', 'fog/key/misc.py'],
     mech=[('sliding window', 'fog/tokenizers/ngrams.py:ngrams'), ('combinations', 'fog/key/misc.py:ngram_keys')],
     note='GramMachine slides the window and checks it and its inverse for all short sequences; replayed with each container. ' + TRUST),
dict(id='C28', title='Word tokenization loses and invents nothing',
     statement='Put end to end, the tokens of a text are exactly its characters in order, save whitespace, ASCII control characters and the hyphens of split French unions ("va-t-on", "dis-le"). No token is empty or contains whitespace, every token has one of the nine documented types, tokenizing never raises and always ends, and tokenizing again gives the same tokens.',
     forall='all texts (any script, emoji, punctuation, apostrophes, hyphens, points, sigils, digits in any arrangement)',
     why='the tests tokenize about eighty sentences; characters get lost only in particular neighbourhoods (a point after capitals, a hyphen before punctuation, an apostrophe after a hashtag).',
     files=['fog/tokenizers/words.py'],
     mech=[('scanner', 'fog/tokenizers/words.py:WordTokenizer'), ('punctuation and emojis', 'fog/tokenizers/words.py:punct_emoji_iter')],
     note='WordMachine walks over every text made of up to 4/5 pieces of an apostrophe/hyphen/point/sigil-rich vocabulary and checks coverage at each step; all replayed, plus random texts of a wide vocabulary. ' + TRUST),
dict(id='C29', title='Words, numbers, entities and contractions are cut and typed by the rules',
     statement='Tokens are cut and typed by the documented rules: smileys first; runs of punctuation one by one around emojis; mentions, hashtags, urls and emails whole; only integers and decimals are numbers (a lone digit not followed by a decimal mark stays punctuation); dotted capitals are acronyms and known abbreviations keep their point; English contractions and French elisions are cut at the apostrophe, Irish and consonant names are not; French unions are split and other hyphenated words are not.',
     forall='all texts over the characters the unicode tables classify; emoji as the emoji library finds them',
     why='each rule is tested on one or two sentences; rules interfere in combinations (acronym and hyphen, apostrophe and number, hashtag and contraction).',
     files=['fog/tokenizers/words.py'],
     mech=[('scanner', 'fog/tokenizers/words.py:WordTokenizer'), ('vowels, contractions, abbreviations', 'fog/tokenizers/words.py')],
     note='WordTok is a complete specification of the plain tokenizer; WordMachine checks its type soundness on all small texts; the code must produce the very same tokens on all of them and on random ones. ' + TRUST),
dict(id='C30', title='The Cologne code follows its definition',
     statement='cologne gives the Cologne phonetic code of any name: umlauts, sharp s and PH are replaced, other characters deburred and non-letters dropped, each letter is coded according to its neighbours, equal consecutive digits are collapsed (the first one included), and zeros are dropped except a leading one. Case never matters and a name without coded letter has an empty code.',
     forall='all names (any case, accents, scripts, punctuation, length)',
     why='the tests code fifteen names; contextual letters (C, D, T, X, P) at the edges of a name are barely varied.',
     files=['fog/phonetics/cologne.py'],
     mech=[('letter codes', 'fog/phonetics/cologne.py:cologne')],
     note='CologneMachine (a one-pass automaton) agrees with the definition for all names up to 3 letters of the alphabet and 4/5 contextual ones; all replayed. ' + TRUST),
dict(id='C31', title='fog split and fog transform keep every row and touch only what is asked',
     statement='fog split writes, for each row in order, one row per value of the cell (an empty cell counts as one empty value), with the value in place of the cell or in the new last column, the other cells unchanged; fog transform writes one row per row with the operations applied left to right (or the expression evaluated), in place, in a new last column or right after the column. Every written row has as many cells as the header, blank lines are not rows, files and pipes give the same result.',
     forall='all rectangular CSV tables (quoted cells, separators and newlines in cells, empty cells, duplicated headers), all options',
     why='the command line has no test.',
     files=['fog/cli/split.py', 'fog/cli/transform.py', 'fog/cli/utils.py', 'fog/cli/__main__.py'],
     mech=[('split', 'fog/cli/split.py:split_action'), ('transform', 'fog/cli/transform.py:transform_action')],
     note='CsvMachine processes all small tables row by row (rectangularity, split undone by join); every table is replayed through the real entry point on scratch files or pipes. ' + TRUST),
dict(id='C32', title='fog cluster reports exactly the fingerprint clusters of the column',
     statement='fog cluster reports, once each, exactly the groups of at least two distinct values of the column sharing a non-empty fingerprint, with the number of values and of affected rows, the values from most to least frequent with their counts and the most frequent one as harmonized value, and right statistics (rows, distinct values, clusters, time the clustering took). The TOML report always parses back to those values and the HTML report shows them literally, whatever characters they hold.',
     forall='all rectangular CSV tables, all cell contents (quotes, backslashes, control characters, markup), both report types',
     why='the command line has no test; escaping only matters for unusual cells.',
     files=['fog/cli/cluster.py', 'fog/cli/reporting/toml.py', 'fog/cli/reporting/html.py'],
     mech=[('counting & clustering', 'fog/cli/cluster.py:cluster_action'), ('reports', 'fog/cli/reporting/toml.py:print_toml_report')],
     note='CsvMachine counts rows and checks the clusters of all small columns; each is replayed and the report parsed back (tomllib, html.parser) before TLC judges it. ' + TRUST),
dict(id='C33', title='OnlineMean follows its history; squeeze drops consecutive repeats',
     statement='After any sequence of additions, subtractions and merges an OnlineMean reports the number and the mean of the values it holds, merging leaves the merged operand untouched, and subtracting from or averaging an empty one is refused. squeeze removes exactly the characters equal to the preceding one, except roman numeral letters when asked to keep them.',
     over=['inputs', 'histories'],
     forall='all finite histories of add/subtract/merge over several means; all strings',
     why='the tests run one short history.',
     files=['fog/utils.py'],
     mech=[('running mean', 'fog/utils.py:OnlineMean'), ('squeeze', 'fog/utils.py:squeeze')],
     note='MeanMachine explores all short histories over three registers; each history is replayed and every register observed after every step. ' + TRUST),
dict(id='C34', title='LAESA finds exactly the pairs within the radius',
     statement='laesa yields the clusters of the graph linking items whose distance is at most the radius, for any metric, any number of pivots (none, more than items, the default) and whatever pivots its seed draws. It accepts collections without or with a single item, any iterable, and leaves its input untouched.',
     forall='all collections of distinct items in a metric space, radii, pivot counts, seeds, size bounds, modes',
     why='laesa has no test; elimination loses pairs only for particular pivots and distances.',
     files=['fog/clustering/laesa.py'],
     mech=[('pivot table', 'fog/clustering/laesa.py:pivot_selection'), ('elimination', 'fog/clustering/laesa.py:laesa')],
     note='LaesaMachine explores every pivot set over small point sets and shows that elimination never loses a pair; point sets replayed under several seeds and pivot counts, judged against brute force. ' + TRUST),
dict(id='C35', title='Word tokenizer options only filter and transform the plain tokens',
     statement='With options the tokens are those of the plain tokenizer on the prepared text (entities decoded, then deburred, then five or more repetitions of a letter shortened to three), each kept or dropped by its type (keep, drop), mentions and hashtags normalized or turned into words without their sigil, hashtags split at case changes and around numbers when asked, words lowered then dropped outside min_word_length and max_word_length, and tokens of the stop list dropped (compared lowered when lowering). Options may be given as any iterable and inconsistent ones are refused.',
     over=['inputs', 'configurations'],
     forall='all texts and all combinations of options',
     why='each option is tested alone on one sentence; their order and combination are not.',
     files=['fog/tokenizers/words.py'],
     mech=[('filters', 'fog/tokenizers/words.py:WordTokenizer.tokenize'), ('hashtags', 'fog/tokenizers/words.py:split_hashtag'), ('lengthening', 'fog/tokenizers/words.py:reduce_lenghtening')],
     note='OptionMachine sends the plain stream of small texts through hundreds of option combinations; every (text, options) pair is replayed, plus random ones. ' + TRUST),
dict(id='C36', title='Rusalka forms follow the ordered rewriting rules',
     statement='rusalka lowers and deburrs a name (with the phonetic notation letters first), drops non-letters, applies its rewriting rules in order, removes repeated letters then every vowel but a leading one, which becomes "a"; names of less than two letters are returned as they are. It never raises, ignores case, and gives the same form to spellings that only differ by v, w, f or ph.',
     forall='all names (any case, accents, scripts, punctuation, length)',
     why='the tests check about thirty families of names; rules feeding each other and names reduced to nothing are not covered.',
     files=['fog/phonetics/rusalka.py'],
     mech=[('rules', 'fog/phonetics/rusalka.py:rusalka')],
     note='RusalkaMachine applies the rules one after the other to all names of up to 4/5 rule letters; all replayed. ' + TRUST),
dict(id='C37', title='Unknown or contradictory options are refused before any work',
     statement='Given at least two items, the clusterers, the set similarity joins, monopartite_projection and WordTokenizer raise a TypeError, before giving any answer, for an unknown mode, metric, token ordering or token type, for neither a similarity nor a distance, for a tokenizer that cannot be called, for a graph that is not bipartite, for both keep and drop, or for a minimum word length not under the maximum. Every other combination of those options is accepted.',
     over=['inputs', 'configurations'],
     forall='all entry points and all combinations of right and wrong values of these options',
     why='the tests give one wrong option to two of the entry points.',
     files=['fog/clustering/utils.py', 'fog/clustering/pairwise.py', 'fog/clustering/ppjoin.py', 'fog/clustering/intersection_index.py', 'fog/graph/projection.py', 'fog/tokenizers/words.py'],
     mech=[('similarity or distance', 'fog/clustering/utils.py:make_similarity_function'), ('modes', 'fog/clustering/utils.py:clusters_from_pairs'), ('options', 'fog/tokenizers/words.py:WordTokenizer')],
     note='MisuseMachine checks the options of every entry point in every order for every combination of right and wrong values; all combinations are replayed, plus random misspellings. ' + TRUST),
dict(id='C38', title='Cosine candidate pairs are those the index promises',
     statement='naive_cosine_pairs yields exactly the pairs of vectors sharing a dimension, the later one first, each once. sqrt_indexation_pairs draws at most the integer square root of n leaders, yields for every vector first a leader no other one is closer to (by cosine), then exactly the earlier vectors filed under that leader, each once. fagin_k1 only proposes other vectors sharing a dimension, each once, and answers exactly for the vectors whose dimensions all belong to some other vector, one of those being proposed; threshold_algorithm_k1 gives every vector, in order, one other vector sharing a dimension, or the vector itself when there is none. None changes the vectors it is given.',
     over=['inputs', 'schedules'],
     forall='all lists of sparse vectors with positive weights (empty and equal ones included), all random draws of leaders',
     why='the module has no test.',
     files=['fog/clustering/fagin.py', 'fog/metrics/cosine.py'],
     mech=[('inverted lists', 'fog/clustering/fagin.py:naive_cosine_pairs'), ('leaders', 'fog/clustering/fagin.py:sqrt_indexation_pairs'), ('top one', 'fog/clustering/fagin.py:threshold_algorithm_k1')],
     note='CandidateMachine reads all small lists of vectors, dimensions in any order and all draws of leaders; FaginMachine reads the lists of a query in parallel, in every order; each list is replayed through the four functions, plus random ones. ' + TRUST),
dict(id='C39', title='Calls are independent: interleaved, abandoned or repeated, they answer the same',
     statement='What a call of the public API answers depends on its arguments (and seed) only: two calls whose results are consumed in turns, a call abandoned before its end, a call repeated later or made on a shared tokenizer or hasher give the same answers, in the same order, as one made alone in a fresh process, whatever other functions were called in between. No call alters the arguments it is given, and items given as a list, a tuple or a generator give the same answers.',
     over=['inputs', 'schedules', 'histories'],
     forall='all interleavings of the consumption of two calls of one or two entry points (clusterers, joins, tokenizers, key functions, signatures, metrics, evaluation, graphs), all abandonments, all inputs',
     why='the tests consume every call at once, on its own, and never look at the arguments again.',
     files=['fog/clustering/utils.py', 'fog/clustering/pairwise.py', 'fog/clustering/passjoin.py', 'fog/clustering/sorted_neighborhood.py', 'fog/tokenizers/words.py', 'fog/tokenizers/fingerprint.py', 'fog/lsh/minhash.py', 'fog/join/hashjoin.py', 'fog/graph/projection.py'],
     mech=[('clusters', 'fog/clustering/utils.py:clusters_from_pairs'), ('tokenizers', 'fog/tokenizers/words.py:WordTokenizer'), ('signatures', 'fog/lsh/minhash.py:SuperMinHash')],
     note='SessionMachine explores all interleavings of two users opening, advancing and dropping calls, up to 6/7 acts; every schedule is replayed on some entry point, longer random ones on all, and TLC judges each step against what the call answers alone. ' + TRUST),
]

NOT_CLAIMED = []
NOTES = 'python3 check.py <id> [--tier quick|thorough] [--replay FILE]; see DESIGN.md'
