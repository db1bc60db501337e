"""Two calls in one process: interleaved, abandoned, repeated.  Each entry point of the library is a pair of
functions: ARGS builds the arguments of a call from a random generator, RUN opens it and returns what can be iterated."""
import copy
import random
from collections import Counter
from vf.util import *

WORDS = ['abc', 'abd', 'abcd', 'xyz', 'xyzt', 'hello', 'hallo', 'hell', 'help', 'paris', 'pari', 'parsi', 'lyon', 'lion', 'lions', 'lyons', 'a', 'b', '']
TEXTS = ["L'arbre est vert. U.S.A.!", 'Hello @yom, #FooBar12 is 4.5€ :)', "aujourd'hui va-t-on etc. dormir", 'http://x.y/z john@x.net 🐱🐶', "I can't, you've 90's -5", 'New York', 'Été, à Œuvre']
SHARED = {}


def shared(name, make):
    """One object for the whole process, as a user keeps a tokenizer or a hasher."""
    if name not in SHARED:
        SHARED[name] = make()
    return SHARED[name]


def lev(a, b):
    from cfog.metrics.levenshtein import levenshtein_distance
    return levenshtein_distance(a, b)


def words(rng):
    return rng.sample(WORDS[:-1], rng.randint(0, 9))


def sets(rng):
    return [rng.sample(range(1, 7), rng.randint(1, 5)) for _ in range(rng.randint(0, 7))]


def bags(rng):
    return [tuple(x) for x in {tuple(x) for x in sets(rng)}]


def graph(rng):
    return [[x, y, rng.randint(1, 4)] for x in range(1, 5) for y in range(11, 15) if rng.random() < .5]


def clustering(name, **kw):
    def run(o):
        import fog.clustering as C
        return getattr(C, name)(o[0], **kw)

    def delivered(o):
        # workers may deliver in any order: what matters is the set of clusters
        yield from sorted(run(o), key=lambda c: sorted(repr(y) for y in c))
    return words, delivered if 'processes' in kw else run


def many(*ks):
    return lambda s: [k(s) for k in ks]


def first(s):
    return s[:1]


def last(s):
    return s[-1:]


def nx_graph(es):
    import networkx as nx
    g = nx.Graph()
    for x, y, w in es:
        g.add_node(x, bipartite=0)
        g.add_node(y, bipartite=1)
        g.add_edge(x, y, weight=w)
    return g


def fagin(name):
    def run(o):
        from fog.clustering import fagin as F
        random.seed(5)
        r = getattr(F, name)(o[0])
        # leaders are drawn when the first answer is asked for
        return iter(list(r)) if name == 'sqrt_indexation_pairs' else r
    return (lambda rng: [{k: rng.randint(1, 3) for k in x} for x in sets(rng)]), run


def fn(module, name, *rest):
    def run(o):
        import importlib
        return [getattr(importlib.import_module(module), name)(*(tuple(rest) + tuple(o)))]
    return run


def gen_fn(module, name, *rest):
    def run(o):
        import importlib
        return getattr(importlib.import_module(module), name)(*(tuple(rest) + tuple(o)))
    return run


def tokenizer(kind, **kw):
    def run(o):
        import fog.tokenizers as T
        t = shared(kind + repr(kw), lambda: getattr(T, kind)(**kw))
        r = t(o[0])
        return r
    return run


def hasher(kind, **kw):
    def run(o):
        import fog.lsh as L
        return [[int(x) for x in shared(kind + repr(kw), lambda: getattr(L, kind)(**kw)).create_signature(o[0])]]
    return run


one_word = lambda rng: [rng.choice(WORDS)]
one_text = lambda rng: [' '.join(rng.sample(TEXTS, rng.randint(0, 3)))]
two_sets = lambda rng: [set(rng.sample(range(6), rng.randint(1, 5))), set(rng.sample(range(6), rng.randint(1, 5)))]
two_bags = lambda rng: [Counter(rng.choices('abcd', k=rng.randint(1, 6))), Counter(rng.choices('abcd', k=rng.randint(1, 6)))]
sim = lambda a, b: lev(a, b) <= 1
BOTH = dict(mode='fuzzy_clusters')


def entries():
    e = {}

    def add(name, args, run, many=True):
        e[name] = (args, run)
    W = lambda rng: [words(rng)]
    B = lambda rng: [bags(rng)]
    G = lambda rng: [nx_graph(graph(rng))]

    def cl(name, fname, args=W, **kw):
        def run(o):
            import fog.clustering as C
            return getattr(C, fname)(o[0], **kw)
        e[name] = (args, run)
    cl('pairwise', 'pairwise', distance=lev, radius=1)
    cl('pairwise_fuzzy', 'pairwise', similarity=sim, mode='fuzzy_clusters')
    cl('pairwise_leader', 'pairwise', distance=lev, radius=1, mode='leader')
    cl('pairwise_leader_fn', 'pairwise_leader', distance=lev, radius=2)
    cl('blocking', 'blocking', block=first, similarity=sim)
    cl('blocking_many', 'blocking', blocks=many(first, last), similarity=sim, mode='fuzzy_clusters')
    cl('key_collision', 'key_collision', key=first)
    cl('key_collision_many', 'key_collision', keys=many(first, last))
    cl('key_collision_apart', 'key_collision', keys=many(first, last), merge=False)
    cl('snm', 'sorted_neighborhood', similarity=sim, window=3)
    cl('snm_keys', 'sorted_neighborhood', similarity=sim, keys=[None, last], window=3)
    cl('asnm', 'adaptive_sorted_neighborhood', distance=lev, radius=1, window=2)
    cl('passjoin', 'passjoin', k=1, distance=lev)
    cl('passjoin_unsorted', 'passjoin', args=lambda rng: [sorted(words(rng), key=lambda x: (len(x), x))], k=2, distance=lev, sort=False)
    cl('quickjoin', 'quickjoin', distance=lev, radius=1, block_size=3, seed=2)
    cl('vp_tree', 'vp_tree', distance=lev, radius=1)
    cl('laesa', 'laesa', distance=lev, radius=1, seed=4)
    cl('intersection_index', 'intersection_index', args=B, radius=.5)
    cl('minhash', 'minhash', args=W, h=16, radius=.6, seed=7)
    cl('nn_descent', 'nn_descent', similarity=lambda a, b: -lev(a, b), radius=-1, k=3, seed=3)
    cl('nn_descent_full', 'nn_descent_full', similarity=lambda a, b: -lev(a, b), radius=-1, k=3, seed=3)
    for f in ('all_pairs', 'ppjoin', 'ppjoin_plus'):
        cl(f, f, args=B, threshold=.5)
    cl('ppjoin_str', 'ppjoin', threshold=.6, metric='dice', tokenizer=list, token_ordering='freq')

    def hj(o):
        from fog.join import hashjoin
        return hashjoin(o[0], o[1], keys=many(first, last))
    WW = lambda rng: [words(rng), words(rng)]
    e['hashjoin'] = (WW, hj)

    def hj1(o):
        from fog.join import hashjoin
        return hashjoin(o[0], o[1], key=first)
    e['hashjoin_key'] = (WW, hj1)

    def hj2(o):
        from fog.join import hashjoin
        return hashjoin(o[0], o[1], key=last)
    e['hashjoin_key_2'] = (WW, hj2)

    def hj3(o):
        from fog.join import hashjoin
        return hashjoin(o[0], o[1], keys=many(len, last))
    e['hashjoin_2'] = (WW, hj3)
    # what a tokenizer is built from belongs to the caller as well
    def opts(rng, *names):
        pool = ['Arbre', 'arbre', 'IS', 'is', 'New', 'YORK', 'Été', 'a', 'etc', "aujourd'hui", "L'", 'est', 'can\'t']
        return [[rng.choice(TEXTS) for _ in range(1)][0]] + [rng.choice([list, set, tuple])(rng.sample(pool, rng.randint(0, 6))) for _ in names]

    def built(kind, names, **kw):
        def run(o):
            import fog.tokenizers as T
            return getattr(T, kind)(**dict(zip(names, o[1:])), **kw)(o[0])
        return lambda rng: opts(rng, *names), run
    e['words_built'] = built('WordTokenizer', ['stoplist'], lower=True)
    e['words_built_2'] = built('WordTokenizer', ['stoplist'], unidecode=True, drop=['punct'])
    e['words_built_3'] = built('WordTokenizer', ['stoplist'])
    e['fingerprint_built'] = built('FingerprintTokenizer', ['stopwords'])
    e['fingerprint_built_2'] = built('FingerprintTokenizer', ['stopwords', 'split'], squeeze=True)

    def typed(which):
        def args(rng):
            pool = ['word', 'punct', 'number', 'emoji', 'mention', 'hashtag', 'url', 'email', 'smiley']
            return [rng.choice(TEXTS), rng.choice([list, set, tuple])(rng.sample(pool, rng.randint(1, 6)))]

        def run(o):
            import fog.tokenizers as T
            return T.WordTokenizer(**{which: o[1]}, decode_html_entities=True)(o[0])
        return args, run
    e['words_typed'] = typed('keep')
    e['words_typed_2'] = typed('drop')
    e['words'] = (one_text, tokenizer('WordTokenizer'))
    e['words_options'] = (one_text, tokenizer('WordTokenizer', lower=True, min_word_length=2, stoplist=['Arbre', 'is'], drop=['punct'], split_hashtags=True))
    e['words_keep'] = (one_text, tokenizer('WordTokenizer', keep=['word', 'hashtag'], normalize_hashtags=True, hashtags_as_words=True, unidecode=True))
    e['fingerprint'] = (one_text, tokenizer('FingerprintTokenizer', stopwords=['est', 'is'], squeeze=True, split=["'"]))
    for n in (1, 2, 3):
        e['ngrams_fingerprint_%d' % n] = (one_text, lambda o, n=n: shared('nfp', lambda: __import__('fog.tokenizers').tokenizers.NgramsFingerprintTokenizer())(n, o[0]))
        e['ngrams_fingerprint_key_%d' % n] = (one_text, fn('fog.key', 'ngrams_fingerprint', n))
    # several processes
    cl('pairwise_par', 'pairwise', distance=lev, radius=1, processes=2, chunk_size=4)
    cl('pairwise_fuzzy_par', 'pairwise', distance=lev, radius=2, processes=2, chunk_size=3, mode='fuzzy_clusters')
    cl('blocking_par', 'blocking', blocks=many(first, last), distance=lev, radius=2, processes=2, mode='fuzzy_clusters')
    cl('quickjoin_par', 'quickjoin', distance=lev, radius=1, block_size=3, seed=2, processes=2)
    # the same functions with other options
    cl('pairwise_2', 'pairwise', distance=lev, radius=2)
    cl('pairwise_fuzzy_2', 'pairwise', distance=lev, radius=2, mode='fuzzy_clusters')
    cl('pairwise_min3', 'pairwise', distance=lev, radius=1, min_size=3)
    cl('pairwise_max2', 'pairwise', distance=lev, radius=1, max_size=2)
    cl('blocking_2', 'blocking', block=last, distance=lev, radius=2)
    cl('blocking_many_2', 'blocking', blocks=many(first, last), distance=lev, radius=2)
    cl('key_collision_2', 'key_collision', key=last, min_size=1)
    cl('snm_2', 'sorted_neighborhood', similarity=sim, window=6, key=last)
    cl('asnm_2', 'adaptive_sorted_neighborhood', distance=lev, radius=2, window=4)
    cl('passjoin_2', 'passjoin', k=2, distance=lev)
    cl('passjoin_3', 'passjoin', k=3, distance=lev, min_size=3)
    cl('quickjoin_2', 'quickjoin', distance=lev, radius=2, block_size=2, seed=9)
    cl('vp_tree_2', 'vp_tree', distance=lev, radius=2)
    cl('laesa_2', 'laesa', distance=lev, radius=2, seed=5, pivots=2)
    cl('intersection_index_2', 'intersection_index', args=B, radius=.3)
    cl('minhash_2', 'minhash', args=W, h=32, radius=.4, seed=8)
    cl('nn_descent_2', 'nn_descent', distance=lev, radius=2, k=2, seed=4)
    cl('ppjoin_2', 'ppjoin', args=B, threshold=.8, metric='dice')
    cl('ppjoin_3', 'ppjoin', args=B, threshold=.5, metric='binary_cosine', token_ordering=None)
    cl('ppjoin_str_2', 'ppjoin', threshold=.3, metric='jaccard', tokenizer=set, token_ordering='crc32')
    e['fingerprint_2'] = (one_text, tokenizer('FingerprintTokenizer', keep_digits=False, min_token_size=2))
    e['words_2'] = (one_text, tokenizer('WordTokenizer', unidecode=True, reduce_words=True, mentions_as_words=True, max_word_length=6))
    e['words_3'] = (one_text, tokenizer('WordTokenizer', lower=True, stoplist=['ARBRE', 'New'], keep=['word']))
    for n in (1, 3, 4):
        e['ngrams_%d' % n] = (one_word, gen_fn('fog.tokenizers', 'ngrams', n))
    e['ngram_keys_3'] = (one_word, gen_fn('fog.key', 'ngram_keys', 3))
    for f in ('bigrams', 'quadrigrams'):
        e[f] = (one_word, gen_fn('fog.tokenizers', f))
    for f in ('levenshtein_1d_keys', 'levenshtein_1d_blocks'):
        e[f + '_flag'] = (one_word, lambda o, f=f: getattr(__import__('fog.key').key, f)(o[0], flag='|'))
        e[f + '_swap'] = (one_word, lambda o, f=f: getattr(__import__('fog.key').key, f)(o[0], transpositions=True))
    e['levenshtein_2d_blocks_swap'] = (one_word, lambda o: __import__('fog.key').key.levenshtein_2d_blocks(o[0], transpositions=True))
    e['squeeze_roman'] = (one_word, lambda o: [__import__('fog.utils').utils.squeeze(o[0], keep_roman_numerals=True)])
    e['simhash_128'] = (W, lambda o: [str(__import__('fog.lsh').lsh.simhash(o[0]))])
    e['simhash_512'] = (W, lambda o: [str(__import__('fog.lsh').lsh.simhash(o[0], f=512))])
    e['minhash_sig_2'] = (one_text, hasher('MinHash', h=8, seed=4))
    e['superminhash_sig_2'] = (one_text, hasher('SuperMinHash', h=16))
    e['lsbminhash_sig_2'] = (one_text, hasher('LSBMinHash', precision=2, seed=4))
    e['intersection_size'] = (two_sets, fn('fog.metrics.utils', 'intersection_size'))
    e['sparse_norm'] = (lambda rng: two_bags(rng)[:1], fn('fog.metrics', 'sparse_norm'))
    e['ngrams'] = (one_word, gen_fn('fog.tokenizers', 'ngrams', 2))
    e['ngrams_list'] = (lambda rng: [[rng.randint(1, 4) for _ in range(rng.randint(0, 6))]], gen_fn('fog.tokenizers', 'trigrams'))
    for f in ('levenshtein_1d_keys', 'damerau_levenshtein_1d_keys', 'levenshtein_1d_blocks', 'levenshtein_2d_blocks', 'damerau_levenshtein_2d_blocks'):
        e[f] = (one_word, gen_fn('fog.key', f))
    e['ngram_keys'] = (one_word, gen_fn('fog.key', 'ngram_keys', 2))
    for f in ('omission_key', 'skeleton_key', 'fingerprint'):
        e[f + '_'] = (one_text, fn('fog.key', f))
    e['cologne'] = (one_word, fn('fog.phonetics', 'cologne'))
    e['rusalka'] = (one_word, fn('fog.phonetics', 'rusalka'))
    for f in ('jaccard_similarity', 'overlap_coefficient', 'dice_coefficient', 'binary_cosine_similarity'):
        e[f] = (two_sets, fn('fog.metrics', f))
    for f in ('sparse_cosine_similarity', 'weighted_jaccard_similarity', 'sparse_dot_product', 'cosine_similarity'):
        e[f] = (two_bags, fn('fog.metrics', f))
    e['sparse_normalize'] = (lambda rng: two_bags(rng)[:1], fn('fog.metrics', 'sparse_normalize'))
    e['minhash_sig'] = (one_text, hasher('MinHash', h=8, seed=3))
    e['superminhash_sig'] = (one_text, hasher('SuperMinHash', h=8))
    e['lsbminhash_sig'] = (one_text, hasher('LSBMinHash', precision=1, seed=3))
    some = lambda rng: [words(rng)[:rng.choice([1, 1, 2, 9])]]
    e['minhash_set'] = (some, hasher('MinHash', h=8, seed=3, use_numpy=True))
    e['superminhash_set'] = (some, hasher('SuperMinHash', h=8))
    e['lsbminhash_set'] = (some, hasher('LSBMinHash', precision=1, seed=3))
    e['simhash'] = (W, lambda o: [str(__import__('fog.lsh').lsh.simhash(o[0], f=64))])
    def cut(rng, items):
        items = rng.sample(items, len(items))
        r = [[]]
        for x in items:
            if r[-1] and rng.random() < .4:
                r.append([])
            r[-1].append(x)
        return r
    part = lambda rng: [cut(rng, list('abcdefg')), cut(rng, list('abcdefg'))]
    e['best_matching'] = (part, fn('fog.evaluation', 'best_matching_macro_average'))
    e['best_matching_sets'] = (lambda rng: [[set(x) for x in y] for y in part(rng)], fn('fog.evaluation', 'best_matching_macro_average'))
    e['labels_to_clusters'] = (lambda rng: [[rng.randint(0, 3) for _ in range(rng.randint(0, 6))]], fn('fog.evaluation', 'labels_to_clusters'))
    e['labels_of_names'] = (lambda rng: [{x: rng.randint(0, 3) for x in rng.sample('abcdefg', 5)}], fn('fog.evaluation', 'labels_to_clusters'))
    e['clusters_to_labels'] = (lambda rng: [cut(rng, list(range(rng.randint(1, 8))))], fn('fog.evaluation', 'clusters_to_labels'))

    def proj(metric, part=0, **kw):
        def run(o):
            from fog.graph import monopartite_projection
            g = monopartite_projection(o[0], part, metric=metric, **kw)
            return [[sorted(g.nodes), sorted((min(x, y), max(x, y), round(w, 9)) for x, y, w in g.edges(data='weight'))]]
        return run
    e['projection'] = (G, proj(None))
    e['projection_cosine'] = (G, proj('cosine'))
    e['projection_jaccard'] = (G, proj('jaccard'))

    def flo(o):
        from fog.graph import floatsam_sparsification
        return [floatsam_sparsification(o[0], learning_rate=1, starting_treshold=0)]
    e['projection_over_1'] = (G, proj(None, threshold=2))
    e['projection_dice'] = (G, proj('dice', use_topology=False))
    e['projection_other'] = (G, proj('overlap', part=1))

    def flo2(o):
        from fog.graph import floatsam_sparsification
        return [floatsam_sparsification(o[0], learning_rate=2, starting_treshold=1, max_drifter_size=1)]
    e['floatsam_2'] = (G, flo2)
    e['floatsam'] = (G, flo)
    for f in ('naive_cosine_pairs', 'sqrt_indexation_pairs', 'threshold_algorithm_k1', 'fagin_k1'):
        a, r = fagin(f)
        e[f] = (lambda rng, a=a: [a(rng)], r)
    e['squeeze'] = (one_word, fn('fog.utils', 'squeeze'))
    return e


ENTRIES = entries()
# what takes any iterable of items: the list is replaced by a tuple, then by a generator
ITERABLE = {'pairwise', 'pairwise_fuzzy', 'pairwise_leader', 'pairwise_leader_fn', 'blocking', 'blocking_many', 'key_collision', 'key_collision_many', 'key_collision_apart', 'snm', 'snm_keys', 'asnm',
            'passjoin', 'passjoin_unsorted', 'quickjoin', 'vp_tree', 'laesa', 'intersection_index', 'minhash', 'nn_descent', 'nn_descent_full', 'all_pairs', 'ppjoin', 'ppjoin_plus', 'ppjoin_str',
            'clusters_to_labels', 'simhash', 'pairwise_2', 'pairwise_fuzzy_2', 'pairwise_min3', 'pairwise_max2', 'blocking_2', 'blocking_many_2', 'key_collision_2', 'snm_2', 'asnm_2', 'passjoin_2',
            'passjoin_3', 'quickjoin_2', 'vp_tree_2', 'laesa_2', 'intersection_index_2', 'minhash_2', 'nn_descent_2', 'ppjoin_2', 'ppjoin_3', 'ppjoin_str_2', 'simhash_128', 'simhash_512',
            'pairwise_par', 'pairwise_fuzzy_par', 'blocking_par', 'quickjoin_par'}
CLUSTERS = {x for x in ITERABLE if x[:7] != 'simhash' and x[:6] != 'ppjoin'} - {'all_pairs', 'clusters_to_labels'}
# what takes the same arguments
FAMILY = {n: [m for m in ENTRIES if m[-4:] != '_par' and ENTRIES[m][0] is ENTRIES[n][0]] for n in ENTRIES}


def snapshot(o):
    if hasattr(o, 'adj'):
        return repr([sorted(o.nodes(data=True), key=repr), sorted(o.edges(data=True), key=repr)])
    if isinstance(o, list):
        return [snapshot(x) for x in o]
    return copy.deepcopy(o)


class Session:
    def __init__(self, c):
        self.ids = {}
        self.c = c
        self.entry = [c['entry'], c.get('other') or c['entry']]
        self.input = [ENTRIES[e][0](random.Random(x)) for e, x in zip(self.entry, c['seeds'])]
        if c.get('same') and self.entry[1] in FAMILY[self.entry[0]]:
            self.input[1] = self.input[0]

    def text(self, u, x):
        if self.entry[u] in CLUSTERS:
            x = sorted(repr(y) for y in x)
        return repr(x)

    def id(self, t):
        return self.ids.setdefault(t, len(self.ids) + 1)

    def open(self, u):
        return iter(ENTRIES[self.entry[u]][1](self.input[u]))

    def texts(self, u, how=None):
        o = self.input[u]
        if how and self.entry[u] in ITERABLE:
            d = o[0]
            o = [tuple(d) if how == 'tuple' else (x for x in d)] + o[1:]
        return [self.text(u, x) for x in ENTRIES[self.entry[u]][1](o)]

    def whole(self, u, how=None):
        return [self.id(t) for t in self.texts(u, how)]

    def fresh(self, u):
        return [self.id(t) for t in alone(self.c, u)]


ZYGOTE = []


def zygote():
    """A process that has the library loaded and never calls it: each line it reads is a call that a child of its own makes."""
    import fog.clustering, fog.clustering.fagin, fog.evaluation, fog.graph, fog.join, fog.key, fog.lsh, fog.metrics, fog.phonetics, fog.tokenizers, fog.utils
    import cfog.metrics.levenshtein, networkx
    import os, sys, json, signal
    ra, wa = os.pipe()
    rb, wb = os.pipe()
    if os.fork() == 0:
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        os.close(wa)
        os.close(rb)
        for line in os.fdopen(ra):
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    signal.alarm(15)
                    c, u = json.loads(line)
                    out = (json.dumps(Session(c).texts(u)) + '\n').encode()
                    while out:
                        out = out[os.write(wb, out):]
                    code = 0
                finally:
                    os._exit(code)
            if os.waitpid(pid, 0)[1]:
                os.write(wb, b'null\n')
        os._exit(0)
    os.close(ra)
    os.close(wb)
    return os.fdopen(wa, 'w'), os.fdopen(rb)


def alone(c, u):
    import json
    if not ZYGOTE:
        ZYGOTE.append(zygote())
    w, r = ZYGOTE[0]
    w.write(json.dumps([c, u]) + '\n')
    w.flush()
    return json.loads(r.readline()) or []


def op_session(c):
    s = Session(c)
    fresh = [s.fresh(0), s.fresh(1)]
    before = [snapshot(x) for x in s.input]
    solo = [s.whole(0), s.whole(1)]
    again = [s.whole(0), s.whole(1)]
    steps = []
    its = [None, None]

    def act(a, u):
        if a == 'open':
            its[u] = s.open(u)
            steps.append(dict(act=a, c=u + 1, r=0))
        elif a == 'drop':
            if its[u] is not None:
                if hasattr(its[u], 'close'):
                    its[u].close()
                its[u] = None
                steps.append(dict(act=a, c=u + 1, r=0))
        elif its[u] is not None:
            try:
                r = s.id(s.text(u, next(its[u])))
            except StopIteration:
                r = 0
                its[u] = None
            steps.append(dict(act=a, c=u + 1, r=r))
    for a, u in c['acts']:
        act(a, u - 1)
    u = 0
    while its[0] is not None or its[1] is not None:
        act('next', u)
        u = 1 - u
        if len(steps) > 4000:
            break
    after = [s.whole(1), s.whole(0)][::-1]
    iterables = [s.whole(0, 'tuple'), s.whole(1, 'gen')]
    return dict(fresh=fresh, solo=solo, again=again, steps=steps, after=after, iterables=iterables, kept=[snapshot(x) for x in s.input] == before)


OPS = dict(session=op_session)
NAMES = sorted(x for x in ENTRIES if x[-4:] != '_par')
PARALLEL = sorted(x for x in ENTRIES if x[-4:] == '_par')


def expand(prop, cases):
    for n, t in enumerate(cases):
        c = dict(op='session', entry=NAMES[n % len(NAMES)], seeds=[n, n + 7], acts=t['acts'], same=n % 5 == 0)
        if n % 3 == 2:
            c['other'] = NAMES[(n + 1 + n // len(NAMES)) % len(NAMES)]
        yield c


def gen(prop, rng, tier):
    for n in range(60000 if tier == 'thorough' else 9000):
        acts = [[rng.choice(['open', 'next', 'next', 'next', 'drop']), rng.randint(1, 2)] for _ in range(rng.choice([4, 10, 25]))]
        c = dict(op='session', entry=NAMES[n % len(NAMES)], seeds=[rng.randrange(10 ** 6), rng.randrange(10 ** 6)], acts=[['open', 1], ['open', 2]] + acts, same=rng.random() < .2)
        r = rng.random()
        if r < .35:
            # another function, or the same with other options, on the same arguments
            c['other'] = rng.choice(FAMILY[c['entry']])
            if rng.random() < .8:
                c.update(same=rng.random() < .5, seeds=[c['seeds'][0]] * 2)
        elif r < .6:
            c['other'] = rng.choice(NAMES)
        if n % 300 == 0:
            c['entry'] = PARALLEL[n // 300 % len(PARALLEL)]
            if n % 600:
                c['other'] = rng.choice(PARALLEL)
        yield c
