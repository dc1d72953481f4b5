#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json; a property is claimed when checks/<id>.py exists."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, state=list(state)))


prop('P01', 'Serialized objects read back as the same values',
     'Every supported object graph that is serialized, to a file, a bytearray or a buffer and with any options, reads back with the same '
     'structure, kinds and values: integers, booleans, None, strings, bits and primitive items exactly, floats as the nearest single. '
     'All three kinds of output hold the same bytes, and reading gives the same result from a file, from a buffer, with or without validation.',
     ['inputs', 'configurations'], 'all supported object graphs (nesting, sharing, cycles, kinds, sizes) x output kind x options',
     'The tests sample a few hundred random lists and maps; kinds, widths, sharing and cycles combine into unboundedly many graphs.',
     ['python/pointless_create.c', 'src/pointless_create.c', 'src/pointless_reader.c', 'src/pointless_reader_helpers.c', 'python/pointless_vector.c', 'python/pointless_map.c', 'python/pointless_set.c'],
     ['export of Python objects to create-time values', 'layout and output of strings, vectors, bitvectors, sets, maps', 'reader accessors'],
     ['pointless.serialize', 'pointless.serialize_to_bytearray', 'pointless.serialize_to_buffer', 'pointless.Pointless(...).GetRoot()'],
     'TLA+ spec of the object store (Store.tla) model checked with TLC; generated graphs serialized and read by the real code, observed graphs checked against the spec by TLC',
     'exhaustive for the small graphs TLC enumerates, sampled beyond; objects of thousands of items, as run-length texts of Large.tla, on recorded operations')
prop('P02', 'Sharing, cycles and hashability of containers survive serialization',
     'Two places of a serialized graph refer to one container in the file if and only if they referred to one object before, so that cycles and sharing read back as '
     'cycles and sharing, and equal but different objects stay different. A vector that is read back reports itself hashable exactly if nothing it '
     'reaches is a set, a map or in a cycle.',
     ['inputs'], 'all graphs of lists, tuples, sets, maps and primitive vectors with any edges between them',
     'Tests contain a handful of cyclic graphs; which components are cyclic depends on the whole edge relation.',
     ['src/pointless_cycle_marker.c', 'src/pointless_cycle_marker_wrappers.c', 'python/pointless_create.c', 'src/pointless_reader_utils.c'],
     ['seen-object table of the exporter', 'strongly connected components of create-time containers', 'container ids in the reader'],
     ['container_id of vectors, sets and maps', 'is_hashable of vectors'],
     'TLA+ spec (Store.tla: sharing as a bijection, cycles by reachability); TLC enumerates all small graphs, which are replayed through the real writer and reader',
     'all digraphs with up to 3 containers, sampled beyond')
prop('P03', 'Lists of numbers get the narrowest lossless storage',
     'A non-empty list or tuple of integers only is stored with the narrowest machine type that holds all of its items (unsigned when none is negative), one of floats only as single '
     'floats, any other one with items of any kind; the stored kind is the one the read vector reports, and no item changes its value or kind by it. Primitive vectors and bytearrays keep their own item type.',
     ['inputs'], 'all lists over integers of 32 bits, floats and other kinds, at every boundary and position',
     'Tests check each width with a few lists; the boundary values times positions times neighbours are not enumerated.',
     ['src/pointless_create.c', 'src/pointless_create_cache.c', 'python/pointless_vector.c'],
     ['vector compression at output'], ['typecode of vectors, buffer format and item size'],
     'TLA+ spec of storage selection (Store.tla); boundary lists enumerated by TLC and replayed through the real writer and reader',
     'all lists up to length 3 over the boundary values of every width, sampled beyond; objects of thousands of items, as run-length texts of Large.tla, on recorded operations')
prop('P04', 'Maps and sets find exactly their keys',
     'A map or set that is read back finds a key, given as a Python object or as any value read from a file, exactly if an equal key was put into it, and a map then gives the value stored with it; '
     'iteration, keys, values, items, len and get agree with that, each entry exactly once. Keys that collide in the hash table, compare equal across representations, or are absent do not change this, and '
     'an object with two keys that are equal once stored is rejected.',
     ['inputs'], 'all sets of hashable keys (including colliding ones), all probes, all representations',
     'Tests look up the keys they put in; absent, colliding and cross-representation probes depend on 32-bit hashes that samples do not hit.',
     ['src/pointless_hash_table.c', 'src/pointless_create.c', 'python/pointless_map.c', 'python/pointless_set.c', 'python/pointless_pyobject_cmp.c'],
     ['open addressing table with perturbed probing', 'comparison of Python keys with stored keys'],
     ['in, [], get, iteration, keys, values, items of maps and sets'],
     'TLA+ specs of the hash table (HashTable.tla, model checked for every insertion order and hash assignment) and of lookup semantics (Values.tla); recorded lookups checked by TLC',
     'hash-table algorithm exhaustively for small tables, the code on enumerated and sampled keys; objects of thousands of items, as run-length texts of Large.tla, on recorded operations')
prop('P05', 'Equal keys have equal hashes in every representation',
     'Objects that compare equal as keys have the same 32-bit hash wherever it is computed: from a Python object, from a value in a file, for numbers of any width or kind, strings of any width, '
     'and vectors stored in any item type. The hash of each value is a fixed documented function of its contents, so that files written earlier or elsewhere stay searchable.',
     ['inputs'], 'all hashable values times all their representations',
     'Tests compare a few hashes; equality across representations quantifies over all pairs.',
     ['src/pointless_hash.c', 'python/pointless_pyobject_hash.c'], ['string, vector, bitvector, number hashes'],
     ['pointless.pyobject_hash, pyobject_hash_32, hash() of bitvectors, the stored hashes of sets and maps'],
     'TLA+ spec of the hash function (Values.tla) evaluated by TLC on every recorded value and representation',
     'reference evaluation of the specified hash on enumerated boundary values and sampled ones')
prop('P06', 'Comparison is one consistent order, whatever the representation',
     'Comparing two values gives the sign the specification gives for their contents: numbers by exact numeric value, strings by code points, vectors and bitvectors item by item and then by length; '
     'Python objects, values in the same or another file, slices and copies of the same contents are interchangeable. Hence it is antisymmetric and transitive on numbers, on strings and on vectors of comparable items, and equality is an equivalence that agrees with lookup.',
     ['inputs'], 'all pairs and triples of values times representations',
     'Tests compare a few pairs; order laws quantify over triples and representations.',
     ['src/pointless_cmp.c', 'python/pointless_pyobject_cmp.c', 'python/pointless_vector.c'], ['reader, create-time and Python comparison functions'],
     ['pointless.pointless_cmp, pointless.pointless_is_eq, rich comparison of vectors and bitvectors, C API comparison'],
     'TLA+ spec of the order (Values.tla: laws model checked with TLC on a small universe, ValuesGen); recorded comparisons of the real code checked by TLC',
     'laws exhaustively on the small universe, code on all pairs of a boundary universe times representations')
prop('P07', 'A file is published completely or not at all',
     'At every moment while serialize() writes to a file name, and after a crash at any moment or a failure of any system call, the name refers to the complete old contents, or nothing if there was none, '
     'or to the complete new contents, which are on stable storage before the name refers to them. When writing fails, an exception is raised, the old file is untouched, and no temporary file or open descriptor is left behind.',
     ['crash_points', 'fault_sequences'], 'every crash point and every single failing or short system call of a write, for any object',
     'Tests never crash or fail a write; they only see completed ones.',
     ['src/pointless_create.c'], ['temporary file, write, flush, sync, permissions, rename'],
     ['system calls issued by serialize(), directory contents after a fault'],
     'TLA+ model of a file system with crashes (Publish.tla, model checked with TLC); recorded system calls of the real writer checked as behaviours, every fault injected',
     'all crash points of every recorded run, every single-call fault', )
prop('P08', 'Unsupported objects are rejected without side effects',
     'Serializing an object graph that contains anything that can not be stored (unsupported types, integers outside of 32 bits, strings with a zero, too deep nesting, keys that are not hashable or equal once stored) raises '
     'an exception and creates or changes no file. Everything that can be stored is accepted; a failed call leaks no memory or references and leaves the arguments and later calls unaffected.',
     ['inputs', 'fault_sequences'], 'all graphs with any offending value at any place, reached through any containers',
     'Tests try few offending values at the top level; the place and the state of the writer when it is met are not enumerated.',
     ['python/pointless_create.c', 'src/pointless_create.c'], ['error paths of the exporter and the writer'],
     ['exceptions of the serialize functions, the directory, reference counts, heap use'],
     'TLA+ spec of acceptance (Store.tla); TLC enumerates the place and kind of the offending value; replayed with reference counts and heap accounting recorded',
     'every offending kind at every place of the enumerated graphs, sampled beyond')
prop('P09', 'Any file is either refused or safe and consistent to read',
     'Opening bytes that are not a well-formed file (truncated, extended, any field changed) raises an exception, and opening never crashes, hangs, or reads outside of the bytes. '
     'Bytes that are accepted can be read completely, every access either gives the value that the format assigns to those bytes or raises an exception, and well-formed bytes are accepted.',
     ['inputs'], 'all byte strings',
     'Tests open only files the library itself wrote; almost all byte strings are never tried.',
     ['src/pointless_validate.c', 'src/pointless_validate_heap.c', 'src/pointless_validate_heap_ref.c', 'src/pointless_validate_hash_table.c', 'src/pointless_reader.c', 'src/pointless_walk.c'],
     ['header, offset, heap, reference, hash-table and cycle checks'], ['pointless.Pointless(path or buffer) and every accessor'],
     'TLA+ spec of the file format (Format.tla: an independent decoder and well-formedness predicate); TLC judges what the real reader does with mutated images',
     'all single-field mutations of a set of images by construction, sampled combinations; memory safety as observed by AddressSanitizer')
prop('P10', 'Views keep their file readable for as long as they live',
     'Every value, iterator, slice or buffer taken from an open file gives the same contents for as long as it lives, whatever else is dropped, overwritten, replaced, unlinked, or collected in whatever order, and '
     'whatever happens to the object it was opened from. The reported number of inside references is the number of live views, and when the last reference goes the memory, mapping and descriptor are released.',
     ['histories'], 'all histories of opening, taking views, dropping references, replacing files and collecting',
     'Tests drop references in one or two orders.',
     ['python/pointless_object.c', 'python/pointless_instance_dispatch.c', 'python/pointless_vector.c', 'python/pointless_map.c', 'python/pointless_set.c', 'python/pointless_bitvector.c'],
     ['reference counting of the base object, private reference counts'], ['GetRefs(), contents of views, mappings and descriptors of the process'],
     'TLA+ spec of ownership (Lifetime.tla, model checked); TLC behaviours replayed against the real objects under AddressSanitizer',
     'all histories of the small model, random longer ones')
prop('P11', 'Vectors behave as immutable sequences, slices included',
     'A vector read from a file has the items, length, iteration orders, membership, buffer contents, extremes and comparison results of the sequence it was written from, and a slice with any limits, taken any number of times, those of '
     'the same slice of that sequence. Nothing done to it changes its contents or that of any other view, and every wrong index or argument raises an exception.',
     ['inputs', 'histories'], 'all vectors of all item types, all nested slices, indices and operations',
     'Tests slice a few vectors once; nested slices times item types times operations are not enumerated.',
     ['python/pointless_vector.c', 'src/pointless_reader.c'], ['slice offset and length of views', 'item access by type'],
     ['len, [], iteration, reversed, in, ==, <, min, max, range, bisect_left, memoryview of vectors'],
     'TLA+ spec of sequence views (View.tla); TLC enumerates slices and operations, recorded results checked by TLC',
     'all slices of slices for short vectors of every type, sampled longer ones; objects of thousands of items, as run-length texts of Large.tla, on recorded operations')
prop('P12', 'Bitvectors behave as sequences of bits',
     'A bitvector, in memory or read from a file in any of its encodings, behaves as the sequence of bits that the operations on it define: length, items, iteration, prefixes and postfixes of zeros and ones, any-set, append, extend, pop, assignment, copies, '
     'comparison, hash and text. Copies are independent, a bitvector read from a file can not be changed, and written bitvectors read back bit for bit with either normalization option.',
     ['inputs', 'histories'], 'all bit patterns and histories of operations, all encodings',
     'Tests use random vectors without boundary lengths; encodings and word boundaries times operations are not enumerated.',
     ['python/pointless_bitvector.c', 'src/pointless_bitvector.c', 'include/pointless/bitutils.h'], ['growth, bit counts, encodings'],
     ['the bitvector type'],
     'TLA+ spec of bitvectors (Bitvector.tla), explored by TLC; behaviours and random histories replayed, traces checked by TLC',
     'all histories of the small model, all patterns up to a length, sampled beyond; objects of thousands of items, as run-length texts of Large.tla, on recorded operations')
prop('P13', 'Primitive vectors behave as growable arrays of their item type',
     'A primitive vector behaves as a list whose items are values of its type: every operation has the effect and result a list would have, an item outside the range or kind of the type is rejected, and a rejected operation changes nothing. '
     'Its serialized form is the documented byte string, loading that gives an equal vector, and any other byte string is rejected.',
     ['inputs', 'histories'], 'all histories of operations on vectors of the nine types, all items',
     'Tests append random items to some types; boundary items, failing operations and their combination with growth are not enumerated.',
     ['python/pointless_prim_vector.c', 'src/pointless_dynarray.c'], ['typed array of items'], ['the primitive vector type'],
     'TLA+ spec of primitive vectors (PrimVector.tla), explored by TLC; behaviours and random histories replayed, traces checked by TLC',
     'all histories of the small model, random longer ones; objects of thousands of items, as run-length texts of Large.tla, on recorded operations')
prop('P14', 'Sorting orders exactly as requested',
     'Sorting a primitive vector leaves its items, each as often as before, in non-decreasing order. Sorting a projection leaves the projection a permutation of its former entries, in the lexicographic order of the given value vectors; an '
     'index outside of a value vector or a wrong argument is rejected, and the value vectors are not changed. '
     'The sort of the C library sorts whatever it is given through comparison and exchange, stays inside of it even if comparisons contradict each other, and fails if a comparison fails.',
     ['inputs'], 'all contents, lengths, item types and combinations of value vectors',
     'Tests sort random data of some types; ties, extremes, runs and sizes around thresholds of the sorting algorithm are not enumerated.',
     ['src/custom_sort.c', 'python/pointless_prim_vector.c'], ['quicksort with insertion sort', 'lexicographic projection comparison'],
     ['sort(), sort_proj() of primitive vectors'],
     'TLA+ model of the sorting algorithm (Bentley.tla, model checked) and specification of sorting and projection (Sorter.tla); recorded comparisons, exchanges and results checked by TLC',
     'all short inputs over small alphabets, sampled and adversarial longer ones; objects of thousands of items, as run-length texts of Large.tla, on recorded operations')
prop('P15', 'Exported buffers never dangle',
     'While any buffer exported by a primitive vector, vector or file buffer is alive, its address and contents stay valid: operations that would resize or free the memory under it are refused and change nothing, and others are visible through it. '
     'After the last buffer is released everything is possible again.',
     ['histories'], 'all interleavings of exports, releases and operations, including failing ones',
     'Tests hold one buffer and try one operation.',
     ['python/pointless_prim_vector.c', 'python/pointless_vector.c', 'python/pointless_object.c'], ['export counters'],
     ['memoryview of primitive vectors and vectors, buffers passed to pointless.Pointless'],
     'TLA+ spec of exports (Buffers.tla), explored by TLC; behaviours replayed under AddressSanitizer, traces checked by TLC',
     'all histories of the small model, random longer ones')
prop('P16', 'Values read from a file can be written again, unchanged',
     'Serializing any value that was read from a file (the root or any inner vector, slice, set, map or bitvector, alone or mixed with Python objects and values of other files) gives a file that reads back as the same value. '
     'Copying a whole file through the C API gives an equivalent file, with the same sharing and cycles.',
     ['inputs'], 'all files, all inner values and slices, mixed with all objects',
     'Tests re-serialize few roots; inner values, slices, hashed vectors and cycles are not combined.',
     ['src/pointless_recreate.c', 'python/pointless_create.c'], ['recreation of values from a reader'], ['serialize of read values, pointless_recreate of the C API'],
     'TLA+ spec (Store.tla applied to the graph of the source file), TLC checks the recorded graphs of source and copy',
     'enumerated small graphs, sampled beyond')
prop('P17', 'Text of a value is what the specification renders',
     'str() and repr() of vectors, slices, sets, maps and bitvectors read from a file, and of primitive vectors, give the text the specification renders for the contents, with repeated containers on a path shown as an ellipsis; they terminate for cyclic values and change nothing. '
     'Objects created with printing disallowed never show their contents.',
     ['inputs'], 'all values, cyclic ones included', 'Tests print a few values and compare none of them.',
     ['python/pointless_print.c', 'python/pointless_prim_vector.c', 'python/pointless_bitvector.c'], ['recursive printing'], ['str() and repr()'],
     'TLA+ spec of the rendering (Text.tla) evaluated by TLC on the recorded graph and text', 'enumerated small graphs, sampled beyond')
prop('P18', 'C lookups and expressions select the addressed value',
     'Looking up a key in a map through the C API by integer, string or unicode finds exactly the value stored under an equal integer or string key. Evaluating an access expression with arguments gives exactly the value the corresponding sequence of lookups gives, and '
     'fails if any step does not exist or has another type; the functions which give plain numbers, strings and vectors leave their outputs alone when they fail.',
     ['inputs'], 'all files, expressions and arguments', 'No test of the reliable suite covers the C expression API.',
     ['src/pointless_eval.c', 'src/pointless_reader_helpers.c', 'src/pointless_hash_table.c'], ['expression parser and evaluator', 'typed map lookups'],
     ['pointless_eval_get, pointless_get_mapping_* and reader functions'],
     'TLA+ spec of access expressions (Eval.tla) explored by TLC; C harness replays, results checked by TLC', 'enumerated expressions up to a length over a set of files')
prop('P19', 'Checked integer arithmetic reports every overflow',
     'Each checked addition and multiplication of the C API (32-bit, 64-bit and size_t) gives the exact mathematical result if it fits the type and reports an overflow otherwise, an operand that overflowed before makes the result overflow, and integer expressions over them are evaluated with the usual precedence, '
     'operators of the same precedence from left to right. An expression that is malformed, or with any step that overflows, is negative or divides by zero, fails and leaves the result alone; what a context was used for before makes no difference.',
     ['inputs', 'histories'], 'all operand pairs, all expressions, all sequences of uses of a context', 'Tests try few operands; the boundary pairs are not sampled, and no test of the reliable suite evaluates expressions.',
     ['src/pointless_int_ops.c', 'include/pointless/pointless_int_ops.h'], ['overflow predicates', 'expression parser and evaluator'],
     ['intop_*_add, intop_*_mult, intop_eval_compile, intop_eval_eval'],
     'TLA+ spec of exact decimal arithmetic and of expressions (IntOps.tla), checked by TLC against a one-pass machine; TLC evaluates it against results recorded from the C functions', 'all pairs of about 40 boundary operands of each type, sampled pairs at the limit, enumerated and sampled expressions')
prop('P20', 'Files have the documented layout and it does not change',
     'Every file that is written is well-formed and holds, decoded by the written-down format independently of the library, exactly the serialized object; equal strings and bitvectors are stored once, entries of sets and maps sit where the hash table searches them, and unused space is zero. '
     'Every well-formed file of that format, also one laid out differently from what the library writes, is read with the contents the format assigns.',
     ['inputs'], 'all written objects and all well-formed files',
     'Tests only read what the same build wrote, so a change of writer and reader together passes them and breaks existing files.',
     ['src/pointless_create.c', 'include/pointless/pointless_defs.h', 'src/pointless_reader.c'], ['output of header, references, heap, hash tables'],
     ['bytes of files'],
     'TLA+ spec of the file format (Format.tla decoder, Store.tla relation) evaluated by TLC on the bytes written by the real code', 'enumerated small graphs, sampled beyond')

prop('P21', 'The C creation interface writes what was built',
     'A C program makes values one by one (numbers, strings of each width, bitvectors, typed vectors that are its own or the library\'s, value vectors, sets, maps), fills them by handle in any order, names a root and writes to a file or to memory. '
     'What is written holds exactly the graph that was built: every handle its contents at the end of the history, equal strings and bitvectors once. A graph that can not be held (no root, duplicate or unhashable keys, unsupported version) is refused with an error. '
     'A call that runs out of memory fails with the documented result and leaves what was built before as it was; however a creation ends, everything allocated for it is released, nothing is released twice, and no temporary file remains.',
     ['inputs', 'histories', 'fault_sequences'], 'all histories of calls, and any allocation of them failing',
     'The tests only reach this interface through the Python serializer, which calls it in one fixed order and never uses half of it (typed vectors of the library, transfers, replacing items, giving up).',
     ['src/pointless_create.c', 'include/pointless/pointless_create.h', 'src/pointless_create_cache.c', 'src/pointless_cmp.c', 'src/pointless_hash.c'], ['handles into growing arrays, renumbering of vectors on output, transfers of arrays, freeing by kind'],
     ['return values, bytes of files, memory that is held'],
     'TLA+ spec of the creation interface (Builder.tla over Format.tla and Store.tla): TLC enumerates histories that are replayed through the C functions, and judges the recorded calls and the bytes they wrote', 'all histories of up to 4/5 calls on 3/4 nodes sampled, random histories of up to 40 calls, single failing allocations')

prop('P22', 'C programs can traverse and print every file',
     'A walk visits the root, and below each value for which the callback says so its parts in order (the vectors of a table included), with depths that are the lengths of the paths, passes over those it is told to pass over, and calls no more once it is told to stop. '
     'Iteration of a set or map gives each entry once, with its value, and the documented counts; looking for a hash finds the entries that have it and no others; distinct containers have distinct numbers below the number of containers. '
     'Debug printing ends for every file, also a cyclic one, and its text is the contents: keys in order, each kind in its form, an ellipsis where a container contains itself.',
     ['inputs', 'histories'], 'all accepted files and all answers of the callback',
     'Tests never call these functions; validation uses the walk, so that an error in it hides in files which tests do not have.',
     ['src/pointless_walk.c', 'src/pointless_reader.c', 'src/pointless_debug.c', 'src/pointless_hash_table.c', 'include/pointless/pointless_reader_utils.h'], ['walk with early stop', 'slots of tables', 'container numbers', 'stack of containers in printing'],
     ['calls of the callback, entries, numbers, text'],
     'TLA+ spec of the walk as a state machine, of tables and of the debug text over the decoded bytes (Traverse.tla), all walks of small graphs enumerated by TLC and replayed; recorded traversals judged', 'all walks of 5 visits through graphs of 2/3 lists, sampled files and answers beyond')


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as h:
        for p in P:
            a = {'files': p['files'], 'mechanism': [{'name': m, 'where': ', '.join(p['files'][:3])} for m in p['mech']], 'observe_at': p['observe'], 'hook_needed': None}
            if p['state']:
                a['state'] = p['state']
            h.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': [], 'not_applicable': [],
         'hooks': {'guard': 'VERIF_HOOKS', 'enable': 'no hooks are needed: the checks build the unmodified sources (with AddressSanitizer where memory safety is observed)', 'source_commits': []}}
    for p in P:
        if os.path.exists(os.path.join(V, 'checks', p['id'].lower() + '.py')):
            m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 check.py %s quick' % p['id'],
                                'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
                                'technique': p['technique'], 'level': 'model_checking', 'level_note': p['note']})
        else:
            m['not_applicable'].append({'property': p['id'], 'reason': 'no check yet; the planned TLA+ specification is described in DESIGN.md'})
    if not m['not_applicable']:
        del m['not_applicable']
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as h:
        json.dump(m, h, indent=1)
        h.write('\n')


main()
