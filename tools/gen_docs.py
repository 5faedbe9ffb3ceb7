"""Writes properties.jsonl and MANIFEST.json from one table"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mechanism, observe, state=(), note='', claimed=True, reason=''):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, observe=observe, state=state, note=note, claimed=claimed, reason=reason))


S = 'scrappybara/'
NO_PIPE = ('No passing test builds a Pipeline (the network weights, word vectors and bigrams are not in the repository), '
           'and no test runs anything on more than one worker or under a chosen schedule.')

prop('C01', 'One document per text, in order, whatever the parallelism',
     'Processing a list of texts returns exactly one document per text, in the order of the texts, and each document holds '
     'one entry per sentence of its own text, in order, with the tuples of that sentence. A sentence longer than 50 tokens is '
     'split again at the characters : " ; ( ) [ ] { } - , which disappear, and pieces that are still longer than 50 tokens '
     'are left out; every other sentence is kept. This holds for every number of texts and sentences, worker count, batch '
     'size and device, and the list of texts is left as it was.',
     ['schedules', 'inputs', 'configurations'],
     'every list of texts, every sentence length around and beyond the limit, worker count 1..n, batch size, device and '
     'every interleaving of the worker threads',
     NO_PIPE, [S + 'pipeline/pipeline.py', S + 'utils/multithreading.py', S + 'syntax/parser.py', S + 'pipeline/logic_pipeline.py'],
     [{'name': 'sentence ranges recorded before flattening', 'where': S + 'pipeline/pipeline.py:__call__'},
      {'name': 're-split and removal of long sentences', 'where': S + 'pipeline/pipeline.py:__split_tokens'},
      {'name': 'results joined in the order of the parts', 'where': S + 'utils/multithreading.py:run_multithreads'}],
     ['the documents a Pipeline call returns'])

prop('C02', 'A document depends only on its own text and the options',
     'The document of a text is the same whether the text is processed alone, together with any other texts, in any position, '
     'again and again, or after any other calls on the same pipeline. It depends on nothing but that text, the data files and '
     'the chunking option, and not on batch size, worker count or schedule. Nothing that a caller does with documents it '
     'received earlier changes later ones.',
     ['schedules', 'inputs', 'histories', 'configurations'],
     'every text, every company it is processed in, every earlier history of calls, every configuration and interleaving',
     NO_PIPE, [S + 'pipeline/pipeline.py', S + 'pipeline/logic_pipeline.py', S + 'syntax/parser.py', S + 'syntax/tagger.py',
               S + 'normalization/', S + 'semantics/', S + 'preprocessing/'],
     [{'name': 'per-sentence processing keeps its state in fresh nodes and trees', 'where': S + 'pipeline/logic_pipeline.py:__logic_process'},
      {'name': 'batching cut from the sentence list by position', 'where': S + 'syntax/parser.py, ' + S + 'utils/mutables.py:make_batches'}],
     ['the documents a Pipeline call returns'])

prop('C03', 'Components shared by several caller threads stay correct',
     'Several threads may use the same pipeline, sentencizer, tokenizer, lemmatization and normalization steps or language '
     'model at once, and every call returns exactly what it returns when nothing else runs. No call waits forever for another '
     'one.',
     ['schedules', 'inputs', 'histories'],
     'every number of caller threads, every mix of calls on the shared objects, every interleaving at bytecode granularity',
     'All tests are single-threaded; the class-level and instance-level tables the components share are never read by two '
     'threads.', [S + 'pipeline/', S + 'preprocessing/', S + 'normalization/', S + 'langmodel/language_model.py', S + 'utils/'],
     [{'name': 'components keep no per-call state in themselves', 'where': S + 'preprocessing/tokenizer.py, ' + S + 'normalization/'}],
     ['return values of concurrent calls'])

prop('C04', 'A failing worker never yields a silently wrong result',
     'When processing of an item fails in any worker thread, at any point and for any reason, the call made by the user raises '
     'an error instead of returning results that are short, shifted or filled with something else. Items that fail do not '
     'make the call hang.',
     ['schedules', 'inputs', 'fault_sequences'],
     'every item that can fail, every exception type, any number of failures, every worker count and interleaving',
     'No test makes a worker fail.', [S + 'utils/multithreading.py', S + 'pipeline/pipeline.py', S + 'pipeline/logic_pipeline.py', S + 'syntax/parser.py'],
     [{'name': 'failures are collected in the workers and raised after the join', 'where': S + 'utils/multithreading.py'}],
     ['exception or return value of the parallel map and of Pipeline calls'])

prop('C05', 'After a failed or interrupted call everything works as before',
     'A call that fails or is interrupted (failing allocation, network error, Ctrl-C, a thread that cannot be started, at any '
     'point) comes back with an error, and afterwards the same pipeline, language model and other objects give right '
     'answers. A call that returns normally leaves none of its workers running.',
     ['schedules', 'fault_sequences', 'histories'],
     'every point inside a call at which an error or interrupt can strike, every interleaving, every follow-up call',
     'No test injects a failure or an interrupt, or checks what state one leaves behind.',
     [S + 'pipeline/pipeline.py', S + 'utils/multithreading.py', S + 'syntax/parser.py', S + 'langmodel/language_model.py'],
     [{'name': 'no state survives a call', 'where': S + 'pipeline/, ' + S + 'syntax/parser.py'},
      {'name': 'workers are joined', 'where': S + 'utils/multithreading.py'}],
     ['exception of the failed call, results of the calls that follow, threads alive'])

prop('C06', 'Tags and parse trees are what the networks\' answers spell out',
     'For any answers of the three networks, every sentence of a batch gets exactly one tag per token, namely the network\'s '
     'tag for that token, and the tree that the arc-eager transition system builds from the predicted transitions and '
     'dependency labels. In that tree a token has at most one parent (the first one it got), a token outside the tree appears '
     'in no arc, the root is the first token that has children but no parent, and there is no tree if there is no arc. The '
     'networks are shown each sentence\'s own characters, word vectors, tags and labels, at the right positions, whatever '
     'the batch size, worker count and schedule.',
     ['schedules', 'inputs', 'configurations'],
     'every set of sentences of 1 to 50 tokens, every network answer, batch size, worker count and interleaving',
     'The tests that run a parser need trained weights that are not in the repository, and would see the few answers those '
     'weights give.', [S + 'syntax/parser.py', S + 'syntax/tagger.py', S + 'syntax/models.py', S + 'syntax/charset.py',
                       S + 'syntax/wordset.py', S + 'syntax/training_samples.py', S + 'utils/tree.py'],
     [{'name': 'arc-eager state machine', 'where': S + 'syntax/parser.py:_ParsingState'},
      {'name': 'vectorization with padding', 'where': S + 'syntax/training_samples.py'}],
     ['tags and trees a parser returns; rows handed to the networks'])

prop('C07', 'A parser trained to perfection rebuilds the annotated trees',
     'If the networks answer exactly what the training data extracted from a set of labelled sentences says, parsing those '
     'sentences gives back their annotated tags and, for trees without crossing arcs, exactly their annotated trees. This '
     'holds for every mix of sentences, batch size, worker count and schedule.',
     ['schedules', 'inputs', 'configurations'],
     'every set of labelled sentences without crossing arcs, every batching, worker count and interleaving',
     'Training-data extraction and parsing are tested apart, the second not at all in this sandbox; that they agree is tested nowhere.',
     [S + 'syntax/labelled_data.py', S + 'syntax/training_samples.py', S + 'syntax/parser.py', S + 'syntax/tagger.py'],
     [{'name': 'static oracle of transitions', 'where': S + 'syntax/labelled_data.py'},
      {'name': 'the same vectorization for training and parsing', 'where': S + 'syntax/training_samples.py'}],
     ['trees and tags a parser returns for the sentences it was trained on'])

prop('C08', 'Language-model files hold exact counts and probabilities',
     'Building a language model writes, for every order, each n-gram of the corpus once with its exact count and the '
     'probability that the chosen smoothing method defines, in descending order of probability; only n-grams whose '
     'probability would be written as zero are left out, so the files can be loaded. The files depend on the '
     'corpus and the options only: the number of processes and their timing change nothing, and nothing else is written.',
     ['schedules', 'inputs', 'configurations'],
     'every corpus, order, smoothing method, number of processes and interleaving of the pool workers',
     'One test builds a model from one text, on one setting; the smoother tests look at a handful of hand-computed probabilities.',
     [S + 'langmodel/language_model_builder.py', S + 'langmodel/ngrams_extraction.py', S + 'langmodel/ngram_store.py',
      S + 'langmodel/mkn_smoother.py', S + 'langmodel/mle_smoother.py', S + 'langmodel/smoother.py', S + 'langmodel/ngram.py'],
     [{'name': 'batches of texts handed to the pool, results in order', 'where': S + 'langmodel/language_model_builder.py:__call__'},
      {'name': 'parallel counting and smoothing', 'where': S + 'langmodel/mkn_smoother.py, ' + S + 'langmodel/mle_smoother.py'}],
     ['the n-gram files'])

prop('C09', 'A language model answers every query as its files define',
     'A loaded language model knows exactly the n-grams of its files that reach the minimum count of their order, and answers '
     'size, membership, most probable n-grams, next words, best n-gram and best token in context as those n-grams and the '
     'documented ranking define. Queries change nothing, an answer belongs to the caller, who may change it, and any number of threads may ask at once, in any order, any number of times.',
     ['schedules', 'inputs', 'histories', 'configurations'],
     'every model, every minimum count, every sequence of queries by any number of threads, every interleaving',
     'The tests ask a handful of queries against one fixed model, from one thread, and mostly cannot run for lack of data files.',
     [S + 'langmodel/language_model.py', S + 'langmodel/token_context.py'],
     [{'name': 'tables filled on construction, read-only afterwards', 'where': S + 'langmodel/language_model.py:__init__'}],
     ['return values of the query methods'])

prop('C10', 'A crashed or failed model build never damages the model on disk',
     'At every moment of a language-model build, and after a process crash, power cut or error at any point, each n-gram file is either '
     'the complete previous one or the complete new one. A build that fails while reading, computing or writing raises the '
     'error and leaves all previous files in place, a build that returns has replaced all of them, and the next build works.',
     ['crash_points', 'fault_sequences', 'schedules', 'inputs'],
     'every disk operation of a build as crash point or failure, every disk error, short or lost write, every failure of the '
     'text source, the pool or an allocation',
     'No test injects a crash or an error.', [S + 'langmodel/language_model_builder.py', S + 'utils/files.py'],
     [{'name': 'write aside, sync, replace', 'where': S + 'langmodel/language_model_builder.py:__write_ngram_file'}],
     ['the n-gram files at every disk operation and after the build'])

prop('C11', 'Saving character codes or word vectors is all-or-nothing',
     'At every moment of a save, and after a process crash, power cut or error at any point, the file holds the complete previous data or the '
     'complete new data, so whoever loads it gets one of the two. A save that comes back without an error has replaced '
     'the file, what is loaded afterwards is what was saved (every listed character under a code of its own, every known word '
     'with its vector), and after a failed save the next one works. Different files may be saved at the same time.',
     ['crash_points', 'fault_sequences', 'schedules', 'inputs'],
     'every disk operation of a save as crash point or failure, every disk error, short or lost write, every interleaving '
     'with a reader',
     'No test saves anything.', [S + 'utils/files.py', S + 'syntax/charset.py', S + 'syntax/wordset.py'],
     [{'name': 'write aside, sync, replace', 'where': S + 'utils/files.py:save_pkl_file'}],
     ['the saved files at every disk operation; objects loaded by readers'])

prop('C12', 'Loading under disk faults is all-or-nothing and leaves nothing open',
     'When a data file is missing, cut short (a table: within a line) or undecodable, or reading it fails at any point, loading the language model, the character codes, the word vectors or the whole '
     'pipeline raises an error; it never hands out an object that holds only part of the data. Reads that merely return '
     'fewer bytes than asked for make no difference, no file stays open, the data folder is left as it was, and loading again works.',
     ['fault_sequences', 'schedules', 'configurations'],
     'every open and read call as failure, every short read, several threads loading at once',
     'No test injects a read error.', [S + 'utils/files.py', S + 'langmodel/language_model.py', S + 'syntax/charset.py',
                                       S + 'syntax/wordset.py', S + 'pipeline/logic_pipeline.py', S + 'pipeline/pipeline.py'],
     [{'name': 'files are read in with-blocks and nothing is swallowed', 'where': S + 'utils/files.py'}],
     ['objects and errors from loading; open file handles'])

prop('C13', 'Reported execution times lose nothing and ignore clock changes',
     'A lap reports the time since the previous reading (of a lap or the total), and the total reports the whole time since '
     'the timer was made, each as hours:minutes:seconds. Stalls at any point are counted exactly once, waiting counts, and '
     'adjustments of the wall clock do not show; the execution time a language-model build prints follows the same rule.',
     ['schedules', 'histories', 'fault_sequences'],
     'every sequence of laps and totals, every stall at any instruction, every jump of the wall clock',
     'No test looks at a timer.', [S + 'utils/timer.py', S + 'langmodel/language_model_builder.py'],
     [{'name': 'one clock reading per lap', 'where': S + 'utils/timer.py:_new_lap'}],
     ['the strings a timer returns and a build prints'])

prop('C14', 'Extracted training data is complete, aligned and side-effect free',
     'Training data extracted from labelled sentences holds exactly one row per sentence (tags, dependencies) or per parsing '
     'step of a sentence whose arcs do not cross (transitions), with every column of a row taken from the same sentence and '
     'step. Shuffling only permutes whole rows, the labelled sentences are not changed, and concurrent extractions do not '
     'disturb each other. A sentence of more than 50 tokens makes the extraction raise; it is never left out silently.',
     ['schedules', 'inputs', 'histories'],
     'every set of labelled sentences, every shuffle, every interleaving of two extractions',
     'The tests look at the transitions of five sentences, unshuffled.',
     [S + 'syntax/labelled_data.py', S + 'syntax/training_samples.py'],
     [{'name': 'columns shuffled with one permutation', 'where': S + 'syntax/training_samples.py'}],
     ['the columns the extraction functions return'])

prop('C15', 'The same input gives the same output in every process',
     'Documents, tokens, language-model files, query answers, saved character codes and word vectors and (for a fixed random '
     'seed) training data are identical from one process to the next. String-hash randomization, the memory addresses of objects, worker count and thread timing '
     'do not show in them.',
     ['schedules', 'inputs', 'configurations'],
     'every hash seed, memory layout, schedule and input',
     'All tests run in one interpreter and never compare two.',
     [S + 'pipeline/', S + 'normalization/', S + 'semantics/', S + 'syntax/', S + 'langmodel/', S + 'preprocessing/'],
     [{'name': 'sets are only asked for membership, never iterated', 'where': S + 'syntax/arg_finder.py, ' + S + 'syntax/nodifier.py, ' + S + 'syntax/chunker.py'}],
     ['everything returned or written by fresh interpreters'])

prop('C16', 'A tree can be read by any number of readers at once',
     'Iterating over a tree yields each of its arcs exactly once, and its queries (parent, children, siblings, ancestors and '
     'descendants via a label, ...) answer as its arcs define. This holds for each reader however many other readers iterate or query the same tree at '
     'the same time, nested in one thread or in several threads, reading never changes the tree, and what a query returned before (other than the '
     'children via a label) may be changed by the caller. Trees may be read, extended and read again. Children and '
     'siblings come label by label, and within a label, like descendants (parent first), in the order in which they were added.',
     ['schedules', 'inputs', 'histories'],
     'every tree, every set of readers, every interleaving of their steps',
     'No test iterates a tree twice at once.', [S + 'utils/tree.py', S + 'utils/mutables.py'],
     [{'name': 'each iteration has its own position', 'where': S + 'utils/tree.py:__iter__'}],
     ['arcs and answers each reader gets'])

prop('C17', 'The parallel map applies the function once per item, in order',
     'Mapping a function over a list on any number of threads calls it exactly once for each item and returns the results in '
     'the order of the items, also for fewer items than threads, no items, equal or falsy items, and results of None. It '
     'returns only when all work is done, for any speed of the workers and any number of concurrent maps, and changes '
     'neither the list nor its items.',
     ['schedules', 'inputs', 'configurations'],
     'every list, every number of threads, every duration of the calls and every interleaving',
     'The parallel map has no test of its own; the tests that go through it have one item.',
     [S + 'utils/multithreading.py', S + 'utils/mutables.py'],
     [{'name': 'contiguous parts, results kept by part number', 'where': S + 'utils/multithreading.py, ' + S + 'utils/mutables.py:divide_list'}],
     ['results of the map, calls of the function'])

prop('C18', 'Training, saving and loading the networks loses nothing',
     'Each of the three networks learns exactly the rows it is given (every input column in the place the network expects, '
     'each row with its own target), and learn returns the best accuracy in percent, that of the validation part if there is '
     'one; a training run that is stopped early leaves the network with the weights of its best epoch, and one that fails '
     'raises. At every moment of saving a network, and after a process crash, power cut or '
     'error at any point, its weights file holds the complete previous or the complete new weights; a save that comes back '
     'without an error has replaced its file and no other, and after a failed save the next one works. A parser that loads '
     'the saved networks in another process rebuilds the annotations (of sentences without crossing arcs) that the networks '
     'learned by heart.',
     ['crash_points', 'fault_sequences', 'schedules', 'inputs'],
     'every training set, every disk operation of a save as crash point or failure, every disk error, short or lost write, '
     'every order of saves and interleaving of concurrent ones',
     'No test trains, saves or loads a network.', [S + 'syntax/models.py', S + 'syntax/labelled_data.py', S + 'syntax/parser.py'],
     [{'name': 'write aside, sync, replace', 'where': S + 'syntax/models.py:_save'},
      {'name': 'columns handed to the network in the order of its inputs', 'where': S + 'syntax/models.py:learn, predict'}],
     ['the weights files at every disk operation; the parses of the reloaded networks'])

NA_WHY = 'Tests sample a few hundred inputs of an unbounded input space.'
prop('N01', 'Tokenization and sentence splitting keep the text',
     'The tokens of a text, put together, are the characters of the text, apart from white space and the documented replacements.',
     ['inputs'], 'every text', NA_WHY, [S + 'preprocessing/tokenizer.py', S + 'preprocessing/sentencizer.py'],
     [{'name': 'ordered rewriting rules', 'where': S + 'preprocessing/tokenizer.py'}], ['tokens'], claimed=False,
     reason='A pure function of one string: no schedule, clock, I/O or fault for a simulation to vary. Its independence from '
            'threads, history and process is decided in C02, C03 and C15.')
prop('N02', 'Lemmas and canonical forms are words of the language model or kept as is',
     'Lemmatization and standardization return a form known to the language data, or leave the word unchanged.',
     ['inputs'], 'every word and tag', NA_WHY, [S + 'normalization/'],
     [{'name': 'candidate lists filtered by the language model', 'where': S + 'normalization/lemmatizer.py'}], ['lemmas'],
     claimed=False, reason='A pure function of a word, a tag and read-only tables: nothing for a simulation to vary. Concurrent '
                           'and repeated use is decided in C02 and C03.')
prop('N03', 'Semantic tuples are well formed',
     'Each semantic tuple has a code and polarity that agree with its arguments, and every argument is a word of its sentence.',
     ['inputs'], 'every parsed sentence', NA_WHY, [S + 'semantics/', S + 'syntax/arg_finder.py'],
     [{'name': 'argument codes', 'where': S + 'semantics/argument_code.py'}], ['tuples'], claimed=False,
     reason='A pure function of one tagged tree: nothing for a simulation to vary. That every sentence gets the tuples of its '
            'own tree under any schedule is decided in C01 and C02.')
prop('N04', 'Crossing arcs of labelled sentences are recognised',
     'A labelled sentence is treated as non-projective exactly if two of its arcs cross.',
     ['inputs'], 'every labelled sentence', NA_WHY, [S + 'syntax/labelled_data.py'],
     [{'name': 'pairwise test of arcs', 'where': S + 'syntax/labelled_data.py'}], ['extracted rows'], claimed=False,
     reason='A pure function of one labelled sentence; its effect on the extracted rows is part of the reference of C14.')

NOTE = {
    'schedules': 'seeded sampling of interleavings at line or bytecode boundaries',
}


def main():
    with open(HERE + '/properties.jsonl', 'w') as f:
        for p in P:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': p['mechanism'], 'observe_at': p['observe'], 'hook_needed': None}},
                ensure_ascii=False) + '\n')
    checks = []
    for p in P:
        if not p['claimed']:
            continue
        checks.append({
            'property': p['id'], 'quick_cmd': 'python3 check.py %s' % p['id'],
            'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % p['id'], 'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': 'deterministic simulation: seeded schedules and injected faults, history checked against a reference model',
            'level': 'exploration',
            'level_note': 'Held on every simulated run of the batch; sampling, not proof. The package runs unmodified on '
                          'simulated threads, pool, clock and disk; tensorflow is a stub whose answers the simulator chooses.'})
    manifest = {
        'version': 1, 'setup_cmd': 'python3 tools/setup_check.py',
        'checks': checks,
        'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in P if not p['claimed']],
        'notes': 'No hooks in /repo: all seams are installed from outside at import time. See DESIGN.md. Replay a failure with: '
                 'python3 check.py <id> --replay <file>.'}
    with open(HERE + '/MANIFEST.json', 'w') as f:
        json.dump(manifest, f, indent=1, ensure_ascii=False)
        f.write('\n')


main()
