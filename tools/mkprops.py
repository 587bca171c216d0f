"""Writes /verif/properties.jsonl (kept so the file stays easy to edit)."""
import json, os
T = 'src/zope/index/text/'
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=qtext), why_tests_cant=why,
      anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                   mechanism=[dict(name=a, where=b) for a, b in mechanism],
                   observe_at=observe, hook_needed=None)))

p('C01', 'Field index range queries return exactly the matching documents',
  'After any sequence of index, reindex, unindex and clear operations on a field index, applying a (minimum, maximum) pair returns exactly the ids of the documents whose current value lies between the two bounds, both inclusive, where None as a bound leaves that side open. Anything that is not a two-element tuple is rejected with TypeError. This holds for every kind of mutually orderable value (including falsy values and None) and every admissible document id.',
  ['histories', 'inputs'], 'all operation histories x all (lo, hi) queries x value types x docids',
  'The tests run one fixed population of about ten documents and half a dozen ranges; they never interleave reindexing and removal with queries, nor reach B-tree splits.',
  ['src/zope/index/field/index.py'],
  [('forward/reverse index kept in step', 'field/index.py FieldIndex.index_doc/unindex_doc'), ('inclusive range union', 'field/index.py FieldIndex.apply')],
  ['FieldIndex.apply'], [('forward index', 'value -> set of docids', 'FieldIndex'), ('reverse index', 'docid -> value', 'FieldIndex')])

p('C02', 'Field index sorting is complete, ordered, limited and duplicate-free',
  'Sorting any collection of document ids by a field index yields each indexed id of the collection exactly once, skips ids that are not indexed whatever the type of the indexed values, and yields them in ascending value order (ties by ascending id), or in descending value order when reversed. With a limit it yields exactly min(limit, number of indexed ids) ids that form a valid first page of that order, for every ratio of limit, collection size and index size; a limit below 1 raises ValueError. Another index class that mixes the sorting in, naming its own mappings by the mixin attributes, sorts alike.',
  ['inputs', 'histories'], 'all index contents x docid collections (lists, sets, trees, with unindexed and duplicate ids) x reverse x limit',
  'Three internal strategies are chosen from size ratios; the tests force each one through private switches on a 9 document index with distinct integer values.',
  ['src/zope/index/field/sorting.py'],
  [('strategy selection (lazy / n-best / full sort)', 'field/sorting.py SortingIndexMixin.sort')],
  ['FieldIndex.sort'])

p('C03', 'Keyword index and/or searches return exactly the matching documents',
  "After any history of index, reindex (including to no keywords at all), unindex, clear and optimize operations and of changes of the tree threshold, a keyword search returns exactly the documents whose current keyword set contains all ('and') or any ('or') of the query's keywords, and an empty query returns nothing. The case-insensitive variant gives the same answers as comparing lower-cased keywords, and a subclass with its own normalization (also to fewer or more keywords) the same as comparing normalized ones; unknown operators and plain-string keyword sequences are rejected with TypeError.",
  ['histories', 'inputs'], 'all operation histories x keyword types x queries (string, list, generator, dict) x operators x thresholds',
  'Tests use a 6 document fixture and check the container conversion at a few sizes; they never check search results across repeated threshold crossings with removals.',
  ['src/zope/index/keyword/index.py', 'src/zope/index/keyword/interfaces.py'],
  [('set difference on reindex', 'keyword/index.py KeywordIndex.index_doc'), ('Set/TreeSet conversion', 'keyword/index.py _insert_forward/optimize'), ('multiunion / ordered intersection', 'keyword/index.py search')],
  ['KeywordIndex.search', 'KeywordIndex.apply', 'KeywordIndex.has_doc'])

p('C04', 'Topic index membership follows the current object and filter set',
  "After any history of adding, replacing, deleting and clearing filters and of indexing, reindexing and unindexing documents, a document belongs to a filter exactly if the filter's expression was true for the object it was most recently indexed with since that filter was added or last cleared; an expression that raises counts as false and never lets an error escape. Searching the registered filters named in a query returns the documents in all ('and') or any ('or') of them, names that are not registered are ignored, and unknown operators or query types raise TypeError.",
  ['histories', 'inputs'], 'all histories x filter expressions x queries x operators',
  'Tests index each object once; no test reindexes an object whose filter outcome changed.',
  ['src/zope/index/topic/index.py', 'src/zope/index/topic/filter.py'],
  [('expression evaluation and membership update', 'topic/filter.py PythonFilteredSet.index_doc'), ('set algebra over filters', 'topic/index.py TopicIndex.search')],
  ['TopicIndex.search', 'TopicIndex.apply', 'ITopicFilteredSet.getIds'])

p('C05', 'Document and word counts always equal what is actually indexed',
  'At every moment documentCount() of a field, keyword or text index equals the number of documents currently indexed, and wordCount() equals the number of distinct values, keywords or words that occur in at least one currently indexed document; a lexicon\'s count equals the number of distinct words it has ever been given. This holds across reindexing, repeated or no-op unindexing, clearing, and container conversions.',
  ['histories'], 'all operation histories, counts observed after every single operation',
  'Counters are maintained incrementally on every path; the tests compare them after a few hand-written sequences only.',
  ['src/zope/index/field/index.py', 'src/zope/index/keyword/index.py', T+'baseindex.py', T+'lexicon.py', T+'textindex.py'],
  [('incremental Length counters', 'index_doc/unindex_doc of each index, baseindex._add_wordinfo/_mass_add_wordinfo/_del_wordinfo'), ('lexicon counter', 'lexicon.py _new_wid')],
  ['IStatistics.documentCount', 'IStatistics.wordCount'])

p('C06', 'Removed documents leave no trace; state depends only on current content',
  'After a document is unindexed, or an index is cleared, the index holds no reference to its id anywhere, and unindexing an unknown id changes nothing. After any history, every answer of an index (search results, relevance scores, sort order, counts) is the same as that of a new index given only the current documents in any order.',
  ['histories'], 'all histories, compared with fresh indexes built in other orders; whole stored state scanned for the removed ids',
  'Tests check a handful of removals against private structures; none compares answers or scores with a freshly built index, in particular after clear().',
  ['src/zope/index/field/index.py', 'src/zope/index/keyword/index.py', 'src/zope/index/topic/filter.py', T+'baseindex.py', T+'okapiindex.py', T+'cosineindex.py'],
  [('unindex/clear/reindex bookkeeping', 'IInjection methods of each index'), ('total document length', 'okapiindex.py _change_doc_len'), ('minimal reindex by word-set difference', 'baseindex.py _reindex_doc')],
  ['IInjection', 'IIndexSearch', 'pickled state'])

p('C07', 'Text queries return exactly the documents the boolean query denotes',
  'For every history of index, reindex, unindex and clear operations and every well-formed query, a text index (either ranking, either id family) returns exactly the documents denoted by the query read as set algebra over the words each document currently contains: words, AND (also implied), OR, NOT, leading hyphen, parentheses, phrases and globs, with common words ignored. A query consisting only of common words or of negations raises ParseError.',
  ['histories', 'inputs'], 'all corpora and histories x all well-formed queries x {Okapi, cosine} x {32, 64 bit ids}',
  'Test queries are about forty fixed strings on three documents; nested combinations and container conversions at more than ten documents per word are not crossed.',
  [T+'queryparser.py', T+'parsetree.py', T+'baseindex.py', T+'setops.py', T+'textindex.py'],
  [('recursive descent parser', 'queryparser.py'), ('node execution', 'parsetree.py executeQuery'), ('weighted set operations', 'setops.py')],
  ['TextIndex.apply', 'executeQuery'])

p('C08', 'Phrase search matches exactly the consecutive word sequence',
  'A phrase search returns a document exactly if the words of the phrase occur in it consecutively and in order after normalization, at any position, whatever word ids the lexicon assigned and however large the vocabulary is. This applies to quoted phrases, hyphenated or punctuation-joined words, and phrases with repeated words.',
  ['inputs', 'histories'], 'all documents x phrases x word id assignments up to the 28 bit limit',
  'Tests use vocabularies of a few dozen words, so all word ids encode to one byte and no encoding is a prefix of another.',
  [T+'baseindex.py', T+'widcode.py'],
  [('encoded word-list substring search', 'baseindex.py search_phrase'), ('self-synchronizing encoding', 'widcode.py encode')],
  ['search_phrase', 'TextIndex.apply'])

p('C09', 'Okapi scores equal the documented BM25 formula',
  "Scores of an Okapi index equal the documented formula, the sum over matched query terms of TF(D,t)*IDF(t) with k1=1.2 and b=0.75, computed from the current documents' word frequencies, word counts and mean length, up to single precision. The text index reports that score divided by the query's weight, so documents are ranked by it after any history of updates.",
  ['histories', 'inputs'], 'all histories and corpora x boolean queries',
  'Tests check a few hand-computed scores on three documents right after indexing.',
  [T+'okapiindex.py', T+'okascore.c', T+'baseindex.py', T+'textindex.py'],
  [('tf/idf computation', 'okapiindex.py _search_wids, okascore.c score'), ('running total length', 'okapiindex.py')],
  ['search', 'query_weight', 'TextIndex.apply'])

p('C10', 'Cosine scores equal the documented cosine measure',
  'Scores of a cosine index equal the documented cosine measure, the sum over matched query terms of w(D,t)/W(D)*log(1+N/f(t)) with w(D,t)=1+log of the frequency, computed from the current documents, up to single precision. The text index reports that score divided by the length of the query vector, after any history of updates.',
  ['histories', 'inputs'], 'all histories and corpora x boolean queries',
  'Tests check one fixed corpus taken from a book right after indexing, never after reindexing where every weight of a document changes.',
  [T+'cosineindex.py', T+'baseindex.py', T+'textindex.py'],
  [('document vector weights', 'cosineindex.py _get_frequencies'), ('reindex of changed weights', 'baseindex.py _reindex_doc')],
  ['search', 'query_weight', 'TextIndex.apply'])

p('C11', 'Query weight bounds every document score of the query',
  'For every corpus and every query without globs, the weight an index reports for the query terms (a term listed once per occurrence) is an upper bound on the score of every matching document, for both rankings. Hence text index results are always positive and never exceed 1 (up to single precision).',
  ['inputs', 'histories'], 'all corpora, histories and glob-free queries, including repeated terms and nested operators',
  'Tests assert only that particular query weights have particular values; no test compares them with scores of queries with repeated terms.',
  [T+'okapiindex.py', T+'cosineindex.py', T+'textindex.py'],
  [('query_weight', 'okapiindex.py, cosineindex.py'), ('normalization', 'textindex.py apply')],
  ['query_weight', 'TextIndex.apply'])

p('C12', 'Native and pure-Python scoring give the same answers',
  'With and without the compiled scoring extension, an Okapi index gives the same matching documents and the same scores (up to single precision) for every corpus, history and query.',
  ['configurations', 'inputs', 'histories'], 'all corpora, histories and queries x {extension, pure Python}',
  'Tests compare one score list on one corpus; the two implementations are separate code in two languages.',
  [T+'okapiindex.py', T+'okascore.c'],
  [('C scoring loop', 'okascore.c score'), ('Python scoring loop', 'okapiindex.py')],
  ['TextIndex.apply', 'OkapiIndex.search'])

p('C13', 'The native scoring module is memory-safe, leak-free and fails cleanly',
  'For every input, including malformed and hostile arguments, the native scoring function performs no invalid memory access and no undefined behaviour, and neither leaks nor over-releases references on success and on every error path. It either fills the result and returns None or raises the proper Python exception of the failing operation, never leaving an exception set behind a normal return.',
  ['inputs', 'fault_sequences'], 'all argument shapes, and a failure injected at each step of the scoring loop',
  'Tests call it only with well-formed data and without a memory checker; leaks and over-releases do not change results.',
  [T+'okascore.c'],
  [('manual reference counting and error returns', 'okascore.c score'), ('multi-phase module initialization', 'okascore.c PyInit_okascore')],
  ['okascore.score'])

p('C14', 'The lexicon is a stable one-to-one mapping of words and positive ids',
  'Every distinct word fed to a lexicon as source text gets exactly one positive id which never changes and is never shared with another word, lookups in both directions agree, and the listings contain exactly those words and ids. Query-side lookups never add words and report 0 for unknown words, also when several indexes share the lexicon or documents are removed.',
  ['histories', 'inputs'], 'all sequences of source texts and term lookups, from several indexes',
  'Tests add at most a few words to an empty lexicon.',
  [T+'lexicon.py'],
  [('id allocation', 'lexicon.py _new_wid/_getWordIdCreate'), ('read-only lookups', 'lexicon.py termToWordIds/get_wid')],
  ['ILexicon'])

p('C15', 'Glob patterns match exactly like shell wildcards',
  'A glob lookup returns the ids of exactly the lexicon words that match the whole pattern, where * stands for any run of characters, ? for exactly one character and every other character only for itself, for any words the configured splitter can produce. A pattern without wildcards finds just that word, and a pattern starting with a wildcard raises QueryError; a glob search returns exactly the documents containing a matching word.',
  ['inputs'], 'all lexicons (any splitter) x all patterns',
  'Tests use four patterns over five alphabetic words.',
  [T+'lexicon.py', T+'baseindex.py'],
  [('prefix range scan and regular expression', 'lexicon.py globToWordIds')],
  ['globToWordIds', 'search_glob'])

p('C16', 'The query parser is total and follows the documented grammar',
  'For every query string (nested less deeply than the interpreter can recurse) the parser either returns the parse tree the documented grammar prescribes or raises ParseError, never anything else, with keywords recognized in any case and common words reported as ignored. Its outcome for a query does not depend on earlier queries, failed or not, and the terms of a tree are exactly those outside negated parts.',
  ['inputs', 'histories'], 'all strings, including random token soups, and sequences of parses on one parser',
  'Tests check about a hundred fixed strings; malformed input is sampled by a dozen cases.',
  [T+'queryparser.py', T+'parsetree.py'],
  [('tokenizer', 'queryparser.py'), ('recursive descent', 'queryparser.py _parse*'), ('terms', 'parsetree.py')],
  ['parseQuery', 'parseQueryEx', 'getIgnored', 'terms'])

p('C17', 'The compact integer codings are lossless',
  'Decoding an encoded list of word ids (0 to 2**28-1) gives back exactly the list, encodings concatenate, and a search for an encoded id list starts only at id boundaries. Rice coding with every documented parameter from 0 to 16 gives back exactly the encoded list of positive integers, delta coding gives back every strictly increasing list it accepted, and a bit array gives back the bits put into it, also after pickling.',
  ['inputs'], 'all lists of integers in range, around every code length boundary, x all Rice parameters',
  'Tests round-trip a few hundred random values; delta coding only for consecutive runs, where all deltas are equal.',
  [T+'widcode.py', T+'ricecode.py'],
  [('byte-aligned code tables', 'widcode.py'), ('Rice code bit array', 'ricecode.py RiceCode'), ('delta coding', 'ricecode.py encode_deltas/decode_deltas')],
  ['widcode.encode/decode', 'RiceCode', 'encode_deltas/decode_deltas'])

p('C18', 'The N-best chooser keeps exactly the best N, in order',
  'After any sequence of additions and removals, an N-best chooser holds the best-scoring items among those it was given (at most N, earlier additions preferred among equal scores), reports them best first with earlier additions first among equals, and removing the smallest returns the lowest-scoring held pair, the latest added one among equals. Its length and capacity always agree with that, and removing from an empty chooser raises IndexError.',
  ['histories', 'inputs'], 'all interleavings of add, addmany, pop_smallest and getbest x capacities x scores with ties',
  'Tests add first and pop afterwards, without ties except one all-equal case.',
  ['src/zope/index/nbest.py'],
  [('sorted insertion with eviction', 'nbest.py addmany')],
  ['INBest'])

p('C19', 'Weighted mass union and intersection are exact set arithmetic',
  'The weighted union (intersection) of any number of weighted docid-to-score mappings contains exactly the documents found in any (all) of them, each with the sum of weight times score over the mappings containing it, up to single precision. The result does not depend on the order, sizes or container types of the inputs, and the inputs are not modified.',
  ['inputs'], 'all lists of mappings (empty, one, many; buckets and trees; None where allowed) x weights x families',
  'Tests use up to a few small mappings with integer weights.',
  [T+'setops.py'],
  [('smallest-first pairing', 'setops.py mass_weightedUnion/mass_weightedIntersection')],
  ['mass_weightedUnion', 'mass_weightedIntersection'])

p('C20', 'Committed index state is durable and complete, aborted work vanishes',
  'When indexes are stored in a ZODB database, after any history of operations the state read by a new connection, after a restart or after a crash at any point is exactly the state of the last completed commit, with all answers intact. Aborting a transaction, or rolling back to a savepoint, undoes every operation since then, and unloading objects from memory at any moment never changes an answer. A connection that only reads keeps giving the answers of the state at the start of its transaction, and those of the newest commit once it starts another.',
  ['histories', 'crash_points'], 'all histories x placements of commit, abort, savepoint rollback, cache eviction, reopening, and file truncation points',
  'No test stores an index in a database; missing change registration is invisible in memory.',
  ['src/zope/index/field/index.py', 'src/zope/index/keyword/index.py', 'src/zope/index/topic/index.py', 'src/zope/index/topic/filter.py', T+'baseindex.py', T+'lexicon.py', T+'okapiindex.py', T+'textindex.py'],
  [('reassignment of mutated non-persistent values', 'baseindex.py _add_wordinfo/_mass_add_wordinfo/_del_wordinfo'), ('persistent containers', 'all indexes'), ('counter unloading', 'lexicon.py sourceToWordIds')],
  ['ZODB connection', 'IIndexSearch', 'IStatistics'])

p('C21', 'Concurrent transactions conflict or are serializable; no lost updates',
  'When several database connections index, reindex and remove documents of the same index (or clear or optimize it) in concurrent transactions, each transaction either fails with a conflict error (and succeeds when retried later) or all the changes it makes take full effect: the committed result equals that of applying the changes of the committed transactions one after the other in some order. No committed update is lost, no removed document reappears, counts stay exact and no two words share an id.',
  ['schedules', 'histories'], 'all interleavings of begin, operations and commit of up to four transactions over shared indexes and lexicons',
  'No test uses concurrent transactions; automatic conflict resolution merges containers silently.',
  ['src/zope/index/field/index.py', 'src/zope/index/keyword/index.py', 'src/zope/index/topic/filter.py', T+'baseindex.py', T+'lexicon.py', T+'okapiindex.py'],
  [('conflict-resolving counters and containers', 'all indexes'), ('word id allocation', 'lexicon.py _new_wid'), ('container conversion', 'keyword/index.py _insert_forward, baseindex.py _add_wordinfo')],
  ['ZODB commits', 'IIndexSearch', 'IStatistics'])

p('C22', 'Rejected operations leave no partial effects',
  'When an indexing operation is rejected with an exception (inadmissible document id, unorderable value or keyword, wrong content type, text the pipeline fails on), every other document is unaffected, counts and scores stay consistent, and the document concerned is either as before or absent. A document that was not indexed before stays absent, and later operations work as if the failed call had never been made.',
  ['fault_sequences', 'histories'], 'all histories with failing operations injected at arbitrary points, of each rejection kind',
  'Tests assert only that the exception is raised, not what is left behind.',
  ['src/zope/index/field/index.py', 'src/zope/index/keyword/index.py', T+'baseindex.py', T+'okapiindex.py'],
  [('order of validation and mutation', 'index_doc of each index, okapiindex.py _reindex_doc')],
  ['IInjection', 'IIndexSearch', 'IStatistics'])

p('C23', 'Queries are read-only and their results are independent snapshots',
  'Searching, sorting, parsing and asking for statistics never changes an index, its lexicon or the query object passed in and registers nothing to be written to the database, so repeating a query gives the same result. A result obtained from a search is not affected by later changes of the index, and changing it does not affect the index. Threads that query one index at the same time each get the right answers.',
  ['histories', 'inputs', 'schedules'], 'all histories x queries, each repeated, mutated and compared x interleavings of querying threads',
  'Tests run each query once on an in-memory index and discard the result.',
  ['src/zope/index/field/index.py', 'src/zope/index/keyword/index.py', 'src/zope/index/topic/index.py', T+'textindex.py', T+'baseindex.py', T+'lexicon.py'],
  [('result construction', 'search/apply of each index'), ('in-place normalization of scores', 'textindex.py apply')],
  ['apply', 'search', 'sort', 'ZODB registered objects'])

p('C24', 'Reindexing unchanged content is idempotent',
  'Indexing a document again with equal content changes no answer of any index, count or score, and for a field index it writes nothing to the database.',
  ['histories', 'inputs'], 'all histories x repeated index operations on every index type',
  'Tests repeat one operation on one document per index type.',
  ['src/zope/index/field/index.py', 'src/zope/index/keyword/index.py', 'src/zope/index/topic/filter.py', T+'baseindex.py', T+'okapiindex.py'],
  [('already up to date check', 'field/index.py index_doc'), ('changed words only', 'baseindex.py _reindex_doc'), ('length bookkeeping', 'okapiindex.py')],
  ['IInjection.index_doc', 'ZODB registered objects'])

p('C25', 'Text is split and normalized as documented, alike for documents and queries',
  'The default pipeline turns any text (a string or a list of strings) into its maximal runs of word characters, in order, lower-cased and without the common words, and the HTML splitter does so after dropping tags and named entities. Consequently every word of a document that is not a common word finds that document, however it is cased in the query, and every run of its words is found as a phrase.',
  ['inputs'], 'all Unicode texts, HTML fragments, and pipelines made of the supplied elements',
  'Tests split a few Latin-1 words.',
  [T+'lexicon.py', T+'htmlsplitter.py', T+'stopdict.py', T+'textindex.py'],
  [('splitters', 'lexicon.py Splitter, htmlsplitter.py HTMLWordSplitter'), ('normalizers', 'lexicon.py CaseNormalizer, StopWordRemover')],
  ['ILexicon.sourceToWordIds', 'parseTerms', 'TextIndex.apply'])

p('C26', 'Results do not depend on the id family, and all ids of the range work',
  'Indexes built on the 32-bit and on the 64-bit id family give identical answers for the same history, and every document id the family can represent, including zero, negative and extreme ones, can be indexed, found, sorted and removed.',
  ['configurations', 'inputs', 'histories'], 'all histories run on both families, with ids across and at the ends of the range',
  'Tests run the same small-id fixtures on the 64-bit family only for some classes.',
  ['src/zope/index/field/index.py', 'src/zope/index/field/sorting.py', 'src/zope/index/keyword/index.py', 'src/zope/index/topic/index.py', 'src/zope/index/topic/filter.py', T+'baseindex.py', T+'parsetree.py', T+'setops.py', T+'okapiindex.py', T+'cosineindex.py'],
  [('family-specific containers', 'all indexes, setops.py')],
  ['IInjection', 'IIndexSearch', 'IIndexSort'])

p('C27', 'Indexes written by old releases upgrade without losing accuracy',
  'A text index or lexicon whose stored state predates the counter objects (plain or absent counters, word ids not consecutive) gives, once its counters have been upgraded by indexing or removing a document and after any further history, the same counts, matches, scores and word ids as one that was built by the current release.',
  ['histories', 'configurations'], 'all histories x upgrade point x first operation',
  'Tests exercise each upgrade branch once on an otherwise empty index.',
  [T+'baseindex.py', T+'okapiindex.py', T+'lexicon.py'],
  [('opportunistic counter upgrades', 'baseindex.py, okapiindex.py _change_doc_len, lexicon.py sourceToWordIds')],
  ['IStatistics', 'IIndexSearch'])

p('C28', 'Index instances are independent of one another',
  'Operations on one index never change the answers of another index of the same or another type, even when they share a lexicon, a document id space, or the arguments passed to them, and changing a keyword list, text list or query object after passing it to an index does not change the index. A copy made by pickling or deep-copying answers like its original and is independent of it, and different indexes may be used by different threads at the same time.',
  ['histories', 'configurations'], 'all interleavings of operations on two or more instances, with shared lexicons and mutated argument objects',
  'Tests build one index per test case; no test interleaves two.',
  ['src/zope/index/field/index.py', 'src/zope/index/keyword/index.py', 'src/zope/index/topic/index.py', T+'textindex.py', T+'lexicon.py', T+'baseindex.py'],
  [('per-instance containers', 'clear() of each index'), ('shared lexicon contract', 'baseindex.py')],
  ['IInjection', 'IIndexSearch'])

p('C29', 'A failing database access surfaces and leaves nothing behind',
  'When the database fails to load an object in the middle of a query or an indexing operation, or to store one while committing, the call either raises an error or does exactly what it would have done without the failure; it never returns a wrong or partial answer. A query that failed has changed nothing and gives the right answer when asked again, and after the transaction is aborted or rolled back to a savepoint nothing of a failed operation remains, so repeating it has its full effect. (Errors which the set operations of the BTrees library swallow by themselves are outside this property.)',
  ['fault_sequences', 'histories'], 'all histories x operations and queries of every index type x the position of the failing load or store',
  'No test lets a load or store fail; swallowed errors show only when the failing access is the one in the swallowing block.',
  ['src/zope/index/field/index.py', 'src/zope/index/keyword/index.py', 'src/zope/index/topic/index.py', T+'baseindex.py', T+'okapiindex.py', T+'lexicon.py'],
  [('no exception handler on the way hides a failing load', 'every module')],
  ['IInjection', 'IIndexSearch', 'transaction abort'])

p('C30', 'Results of several indexes combine into one correct, rankable answer',
  'Every search answers with a set or a score mapping of the id family of its index (or with None if the query cannot restrict the result), listing each matching id once in ascending order, with consistent length, truth value and membership. Results of any indexes over the same documents can therefore be intersected, united, subtracted and added with weights, ranked by score, and sorted and limited by a field index, and the outcome is exactly what the individual answers denote, for every history and every combination.',
  ['histories', 'inputs', 'configurations'], 'all histories x sets of indexes x expressions over their searches x sort order and limit',
  'No test combines results of two indexes, and none checks what kind of container a result is for each id family and container size.',
  ['src/zope/index/field/index.py', 'src/zope/index/field/sorting.py', 'src/zope/index/keyword/index.py', 'src/zope/index/topic/index.py', T+'textindex.py', T+'baseindex.py', T+'parsetree.py', T+'setops.py'],
  [('result construction', 'search/apply of each index'), ('family of results', 'setops.py, parsetree.py'), ('conversion of the ids to sort', 'field/sorting.py sort')],
  ['IIndexSearch.apply', 'IIndexSort.sort', 'IExtendedQuerying'])

p('C31', 'Every index works alike on compiled and on pure-Python libraries',
  'Where the BTrees, persistent and zope.interface libraries run in pure Python (PURE_PYTHON set, or PyPy) and the scoring extension is not used, every index type gives the same answers, scores, orders and counts as with the compiled libraries, for every history of operations, and goes through a pickle unchanged.',
  ['configurations', 'histories'], 'all histories and queries of every index type x {compiled, pure-Python libraries}',
  'The tests run with the compiled libraries only; the two implementations of BTrees differ in what they accept and in when they copy.',
  ['src/zope/index/field/index.py', 'src/zope/index/field/sorting.py', 'src/zope/index/keyword/index.py', 'src/zope/index/topic/index.py', 'src/zope/index/topic/filter.py', T+'baseindex.py', T+'okapiindex.py', T+'cosineindex.py', T+'lexicon.py', T+'setops.py', T+'parsetree.py'],
  [('choice of the scorer', 'okapiindex.py PURE_PYTHON'), ('use of the BTrees interfaces', 'every index module')],
  ['PURE_PYTHON', 'IInjection', 'IIndexSearch', 'IIndexSort', 'IStatistics'])

p('C32', 'Concurrent changes of different documents commit without conflict',
  "When concurrent transactions index, reindex and remove different documents of one stored index, they all commit without a conflict error and together have their full effect, provided the changed entries are ones the BTrees library can merge: no tree node is split, emptied, loses its first key or has one of its persistent values replaced, and transactions changing a text index introduce no new words and their words are stored apart. In particular counts and the index objects themselves never cause a conflict, the documents may have values and keywords in common unless the set of a keyword's documents is just converted, and a transaction that only queries never conflicts with anything.",
  ['schedules', 'histories'], 'all stored indexes x all sets of overlapping transactions on disjoint documents x commit orders',
  'No test uses concurrent transactions; a counter or an attribute rewritten where it should be changed in place gives the same answers in one transaction.',
  ['src/zope/index/field/index.py', 'src/zope/index/keyword/index.py', 'src/zope/index/topic/filter.py', T+'baseindex.py', T+'okapiindex.py', T+'lexicon.py'],
  [('counters that merge concurrent changes', 'Length objects of every index and of the lexicon'), ('document sets that merge', 'field/index.py, keyword/index.py forward index'), ('no change of the index object itself', 'index_doc/unindex_doc of every index')],
  ['ZODB commits', 'IInjection', 'IIndexSearch', 'IStatistics'])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
