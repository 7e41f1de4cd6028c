import json
P=[]
def p(id,title,statement,over,qtext,why,files,symbols=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=dict(files=files,mechanism=[{"name":s,"where":files[0]} for s in (symbols or [])])))
Q="mixtera/core/query/"
p("P01","Every sample is handed out at most once, and none is dropped",
 "When a job streams its query result to any number of data-parallel groups and data-loader workers, no sample is delivered twice within one (data-parallel group, node) view or to two different data-parallel groups, every delivered sample belongs to the query result, and with an arbitrary mixture the streams together deliver the complete query result by the time all of them end. This holds however the workers' requests interleave, how many groups, nodes and workers there are, and whether the job runs in process, in forked loader workers or against a server.",
 ["schedules","inputs","configurations"],"all request interleavings of all workers of all nodes, all (dp_groups, nodes_per_group, num_workers, chunk size) configurations, all query results, local/forked/server mode",
 "Unit tests drive the distributor with a mocked query result from one thread in a fixed order; the real distributor/server tests do not even collect in this environment.",
 [Q+"chunk_distributor.py",Q+"query_result.py","mixtera/network/server/server.py","mixtera/core/client/local/local_stub.py"],["ChunkDistributor.next_chunk_for","QueryResult.__next__"])
p("P02","All nodes of a data-parallel group see the same data in the same order",
 "Within one data-parallel group, the stream obtained for a given worker id is sample-for-sample identical on every node of the group, including chunk boundaries and key ids, regardless of how far the nodes' progress drifts apart and how their requests interleave with each other and with other groups.",
 ["schedules","configurations","inputs"],"all interleavings and relative speeds of nodes in all group/node/worker configurations",
 "Depends on cache retention between nodes that drift arbitrarily; tests request in lock step.",
 [Q+"chunk_distributor.py","mixtera/network/server/server.py"],["ChunkDistributor.next_chunk_for"])
p("P03","The data sequence of a job is reproducible",
 "For the same registered data, query, mixture and execution configuration, the sequence of chunks and the samples inside them is identical across runs, server processes, hash seeds, directory listing orders, machine thread counts and random states of the training code, and is the same whether the result comes from a fresh execution or the query cache and whether it is consumed in process or through a server. Which group receives which chunk may depend on request timing, but the global sequence of chunks may not.",
 ["schedules","inputs","configurations"],"all pairs of executions that differ only in schedule, host (cores, listing order, hash-map order), cache state or local/server mode",
 "A single test process has one hash seed, one core count, one directory order and one schedule; equality across executions is a two-run property.",
 [Q+"query_result.py",Q+"query_cache.py",Q+"result_chunk.py",Q+"chunker/src/chunker.cpp","mixtera/utils/utils.py"],["QueryResult._chunk_generator","seed_everything_from_list","deserialize_chunker_index"])
p("P04","Delivered chunks follow the requested mixture",
 "Under a strict mixture every chunk contains exactly the requested number of samples for every mixture component and chunks are produced as long as all components can still be filled; under a best-effort mixture every chunk still has exactly chunk-size samples, is filled by component while data lasts, and shortfall only goes to components that still have data. The key id delivered with a sample always denotes a mixture component the sample's own properties match, and the same id denotes the same component for the whole job; in windowed reading every complete window follows the mixture while all components last, and without best effort a chunk is not continued after the first window that cannot follow it.",
 ["inputs","schedules","histories"],"all data distributions, mixtures (static, hierarchical, inferring, arbitrary; overlapping component keys), chunk/window sizes and request schedules, including mixture changes and resumed jobs",
 "Tests check a few hand-made indices through mocks; adherence depends on depletion order, overlapping keys and on ids staying stable across mixture changes and restores.",
 [Q+"query_result.py",Q+"result_chunk.py",Q+"mixture/static_mixture.py",Q+"mixture/hierarchical_static_mixture.py",Q+"mixture/inferring_mixture.py",Q+"mixture/mixture_key.py"],["QueryResult._chunk_generator","ResultChunk._iterate_window_mixture"])
p("P05","A query returns exactly the samples that match it, with their own content",
 "Executing a query selects exactly the samples of all registered datasets whose properties satisfy its conditions, and every delivered sample is that stored record's content passed through its own dataset's parsing function, for JSONL, Parquet and WebDataset sources. This also holds while other queries, streams and dataset registrations run concurrently on the same server: a query sees every dataset whose registration completed before it started and none that was removed before it started, and is never corrupted by the others.",
 ["inputs","schedules"],"all datasets, file splits, property values (including nulls and lists), queries, and all interleavings with concurrent registrations, queries and streams",
 "Concurrency on the shared database connection never occurs in tests, and content identity needs end-to-end identification of each sample.",
 ["mixtera/core/query/query.py","mixtera/core/query/operators/select.py","mixtera/core/datacollection/mixtera_data_collection.py","mixtera/core/datacollection/datasets/jsonl_dataset.py","mixtera/core/datacollection/datasets/parquet_dataset.py","mixtera/core/datacollection/datasets/web_dataset.py"],["Query.execute","MixteraDataCollection"])
p("P06","The dataset catalogue is linearizable and survives crashes",
 "Registering, removing, listing and checking datasets behave as if each operation took effect atomically at one instant between its call and its return, even when issued concurrently by several clients; names stay unique, an acknowledged registration or removal survives a server crash and restart, and a registration that failed or was interrupted never makes samples of other datasets disappear, change or mix. Every dataset reported as successfully registered is complete: all its samples can be queried.",
 ["schedules","histories","crash_points","fault_sequences"],"all histories of concurrent catalogue operations, all crash points between statements of a registration/removal",
 "Tests call the collection sequentially from one thread with a mocked pool and never crash or restart it.",
 ["mixtera/core/datacollection/mixtera_data_collection.py","mixtera/network/server/server.py","mixtera/network/connection/server_connection.py"],["MixteraDataCollection.register_dataset","MixteraDataCollection.remove_dataset"])
p("P07","The query cache is invisible",
 "Whether or not a cached result exists, a query delivers exactly the data a fresh execution against the current catalogue would deliver: a dataset registered or removed at any moment is never hidden or resurrected by a cached result. A crash or disk error while a cache entry is written, at any point, never makes a later identical query fail or return different data.",
 ["histories","crash_points","schedules","fault_sequences"],"all interleavings of queries with registrations/removals, all crash points and disk faults during cache writes, all cache states left behind",
 "Needs a catalogue change between execution and cache write, or a crash inside the write; tests only see complete entries written in sequence.",
 [Q+"query_cache.py",Q+"query_result.py","mixtera/core/client/local/local_stub.py","mixtera/utils/utils.py"],["QueryCache.cache_query","QueryCache.get_queryresults_if_cached"])
p("P08","Resuming from a checkpoint continues exactly where training stopped",
 "If a job is checkpointed after its nodes have consumed some data and is later restored, by the same or a restarted server or local process, the data delivered after the restore is exactly the data the uninterrupted job would have delivered after the checkpoint: no sample repeated, none skipped, same mixture, for every data-parallel group, node and worker. If the nodes of a group report slightly different positions inside their current chunk, the furthest one counts, so that no node sees a sample twice. This remains true for checkpoints of restored jobs, any number of times.",
 ["histories","crash_points","schedules","configurations"],"all checkpoint positions inside and between chunks, all configurations and reading modes, any number of checkpoint/crash/restore cycles, with or without query cache, with static or changing mixtures",
 "Compares two whole-system executions at every cut point; tests restore once at one fixed point with mocked pieces.",
 [Q+"chunk_distributor.py",Q+"query_result.py",Q+"result_chunk.py","mixtera/core/client/local/local_stub.py","mixtera/network/server/server.py"],["ChunkDistributor.checkpoint","ChunkDistributor.from_checkpoint","QueryResult.replay"])
p("P09","A completed checkpoint is durable; an incomplete one is never mistaken for one",
 "Once a checkpoint is reported as complete on disk it can be restored after any later crash, and it stays restorable unchanged however many further checkpoints are taken or restores happen; checkpoint ids of a job are never reused. If writing a checkpoint fails or the writer is killed at any point, the checkpoint is reported as failed rather than complete, other checkpoints are unaffected, the job can still be checkpointed again, and restoring the incomplete one fails instead of silently delivering wrong data. Reports that do not describe a consistent state (nodes of a group at different chunks, a node reporting twice) are refused and never become a checkpoint.",
 ["crash_points","fault_sequences","histories"],"all crash points and disk errors inside the checkpoint writer and the server, all sequences of checkpoints, restores and restarts",
 "The writer is a separate process with several files; tests never kill it or fail its disk.",
 [Q+"chunk_distributor.py","mixtera/core/client/local/local_stub.py","mixtera/utils/checkpoint.py","mixtera/network/server/server.py"],["ChunkDistributor._persist_checkpoint_process","ChunkDistributor.checkpoint_completed"])
p("P10","Values cross the wire unchanged",
 "Every integer, float, string, non-empty byte string, pickled object and numpy array sent between client and server is received with exactly the value that was sent, and None stays None (the empty byte string is the documented encoding of None), for any fragmentation, coalescing or delay of the byte stream and any number of messages in a row on one connection; if the stream ends or stalls in the middle of a value the receiver gets an error, never a wrong or shortened value, and a stream that ends between two values is distinguishable from every value.",
 ["inputs","schedules","fault_sequences"],"all message sequences and values, all segmentations, delays, stalls and cut points of the byte stream",
 "Tests use mocked readers with a handful of values and whole-buffer delivery.",
 ["mixtera/network/network_utils.py","mixtera/network/connection/server_connection.py","mixtera/network/server/server.py"],["read_bytes","read_numpy_array","read_pickeled_object"])
p("P11","A stream never ends early without an error",
 "A client iterating over a job's samples either receives all the data destined for it or gets an exception; connection failures, resets, server crashes or restarts, stalls, timeouts and disk errors of the server never look like the regular end of the data, and never cause a sample to be delivered twice. The same holds for the other client calls: a failed exchange is reported as failure, never as success or as an empty answer.",
 ["fault_sequences","schedules"],"all placements of connection refusal, reset, truncation, stall, partition and server crash in the client-server exchange",
 "Needs faults at arbitrary byte positions of real client/server exchanges; tests mock the connection.",
 ["mixtera/network/connection/server_connection.py","mixtera/network/network_utils.py","mixtera/core/client/server/server_stub.py"],["ServerConnection._stream_result_chunks","ServerConnection._connect_to_server"])
p("P12","One client cannot break or block the server for the others",
 "A client that disconnects, stalls, sends malformed or unknown requests, asks for unknown jobs, crashes at any point of an exchange or has the server execute an operation that takes long (a query, a registration or removal of a dataset, writing or restoring a checkpoint) affects only its own request: the server keeps running, the requests of other clients are answered correctly within bounded time, and jobs of other clients deliver unchanged data.",
 ["fault_sequences","schedules"],"all misbehaviours at all points of an exchange and all durations of long operations, concurrent with well-behaved clients",
 "Requires several concurrent clients and misbehaving peers on one event loop; tests call handlers one at a time with mocks.",
 ["mixtera/network/server/server.py","mixtera/network/network_utils.py","mixtera/core/client/local/local_stub.py"],["MixteraServer._dispatch_client"])
p("P13","Reported execution and registration status is the truth",
 "Waiting for a job returns success exactly when its query was executed (or its checkpoint restored) and its data can be streamed, and failure when it was not; a dataset registration reports success exactly when the dataset is usable afterwards. Submitting a job id that is already running is refused without affecting the running job, and every wait ends within bounded time after faults stop.",
 ["schedules","histories","fault_sequences"],"all interleavings of submission, execution, restore and waiting by several nodes; failing queries, restores and registrations",
 "The status protocol is asynchronous across background tasks and several waiting nodes; tests set the status dictionaries by hand.",
 ["mixtera/network/server/server.py","mixtera/core/client/server/server_stub.py","mixtera/network/connection/server_connection.py","mixtera/core/client/local/local_stub.py"],["MixteraServer._background_register_query","ServerStub.wait_for_execution"])
p("P14","Training feedback steers the mixture as specified, in any order",
 "Under a mixture schedule every chunk generated after a feedback report was acknowledged follows the schedule entry for the highest training step acknowledged so far (its proportions, its strictness, and the schedule's chunk size), regardless of duplicated, delayed or reordered reports; under a dynamic mixture it follows the distribution the mixing algorithm last returned, and every acknowledged report reaches the algorithm of its own job exactly once. A stream under such a mixture only ends when the mixture in effect cannot be filled from what is left. The mixture ids of a worker's chunks never decrease and only change when the mixture changes, chunks with the same id follow the same mixture, a domain id denotes the same domain throughout a job, and feedback for unknown jobs is never acknowledged. A training that reports through its dataset on all ranks delivers each step's losses exactly once (rank 0 only), with the mixture id of the chunks it had read by then, from the first to the last batch.",
 ["histories","schedules"],"all sequences, duplications and reorderings of feedback interleaved with chunk requests of all groups",
 "Tests feed single reports to a mixture object; the coupling with generation, ids and concurrency is not exercised.",
 [Q+"mixture/mixture_schedule.py",Q+"mixture/dynamic_mixture.py",Q+"query_result.py","mixtera/network/server/server.py","mixtera/core/client/local/local_stub.py"],["Mixture.process_client_feedback","MixtureSchedule.current_mixture"])
p("P15","Background tokenization equals sequential tokenization",
 "The token sequences produced with the background tokenization thread are exactly those produced without it for the same texts and settings (overlap, bos/eos, batch size, at-least-one-sample), for every interleaving of producer and consumer; the iteration always terminates, and an error raised by the text source or the tokenizer reaches the consumer instead of hanging it or ending the stream.",
 ["schedules","inputs","fault_sequences"],"all interleavings of the prefetch thread and the consumer, all texts and settings, errors at any position",
 "The interleaving is left to the OS in the tests and errors in the background thread are not tested.",
 ["mixtera/utils/tokenizing_iterator.py",Q+"result_chunk.py"],["ThreadedTokenizingIterator"])
p("P16","Prefetching does not change what a reader sees",
 "Iterating with first-sample prefetching yields the same items in the same order, and raises the same errors, as iterating without it, for every source, including empty sources, sources whose items are falsy, and sources that fail, under every interleaving of the prefetch thread and the consumer.",
 ["schedules","inputs","fault_sequences"],"all interleavings and all source behaviours",
 "Thread timing and failing sources are not covered by tests.",
 ["mixtera/utils/prefetch_iterator.py",Q+"result_chunk.py"],["PrefetchFirstItemIterator"])
p("P17","Parallel chunk reading delivers the same samples as sequential reading",
 "Reading a chunk with several reader processes delivers exactly the same samples with the same mixture guarantees as reading it with one, under every interleaving, and repeated reading gives the same order; if a reader process dies or fails the consumer gets an error, never a silently shortened chunk, and it never hangs; a program that stops reading early, fails or is killed leaves no reader process behind and is not kept from ending.",
 ["schedules","fault_sequences","configurations"],"all degrees of parallelism, process interleavings, and crash points of reader processes and consumers",
 "Tests patch out the processes or run them fault-free.",
 [Q+"result_chunk.py"],["ResultChunk._reader_process","ResultChunk._get_iterator_for_workload_mt"])
p("P18","Reading files through the server equals reading them locally",
 "Streaming a job with samples tunnelled through the server delivers exactly the same samples (up to a trailing line terminator) in the same order as reading the files directly, for all file contents and all network segmentations, and a failed transfer is an error, never missing samples.",
 ["inputs","schedules","fault_sequences"],"all file contents, chunk positions in files, and network schedules and faults",
 "Tests compare one mocked string.",
 ["mixtera/network/connection/server_connection.py","mixtera/core/filesystem/filesystem.py","mixtera/network/server/server.py","mixtera/core/datacollection/datasets/jsonl_dataset.py"],["ServerConnection.get_file_iterable","MixteraServer._read_file"])
p("P19","The training dataset wrapper resumes a whole training run",
 "A training run that reads through the torch or Hugging Face dataset on all nodes and loader workers, takes framework checkpoints, crashes at an arbitrary moment and restarts from its last saved checkpoint continues, in every loader worker, with exactly the samples that follow the last one this worker had yielded when the checkpoint was taken: overall, every node trains on exactly the samples of the uninterrupted run. The checkpoint ID saved with the training's checkpoint names a complete checkpoint at all times, and a checkpoint can also be taken after the last sample.",
 ["crash_points","schedules","histories"],"all crash moments, loader-worker interleavings, numbers of nodes and workers",
 "Requires several simulated loader processes sharing memory plus crash and restart; the module cannot even be imported by the tests here.",
 ["mixtera/torch/mixtera_torch_dataset.py","mixtera/utils/checkpoint.py","mixtera/utils/dataset_utils.py","mixtera/hf/mixtera_hf_dataset.py","mixtera/network/server/server.py"],["MixteraTorchDataset.__iter__","handle_mixtera_checkpoint"])
p("P20","A dynamic mixture stays valid and survives restart",
 "For every history of loss feedback a dynamic mixing algorithm only ever produces proper probability distributions over known components, the same history always produces the same mixtures, and a job restored from a checkpoint responds to further feedback with exactly the mixtures the uninterrupted job would have produced. Reports may cover any subset of the known domains; simple averaging weighs the observed domains by their average loss, ADO follows its published recursion with the documented differences. A mixing algorithm whose worker processes die does not block its job.",
 ["histories","crash_points","inputs"],"all feedback histories (growing domain counts, zero counts, repeated reports), checkpoint positions between any two reports, simple averaging and ADO",
 "Algorithm state travels through the mixture log, deep copies and pickles; tests exercise the algorithms in isolation without checkpoints.",
 ["mixtera/core/algo/dynamic_mixing/dynamic_mixing.py","mixtera/core/algo/loss_avg/loss_avg.py","mixtera/core/algo/ado/ado.py",Q+"mixture/dynamic_mixture.py",Q+"chunk_distributor.py"],["DynamicMixingAlgorithm.process_losses","DynamicMixture._process_losses"])
p("P21","Mixture keys and ratio rounding obey their algebra",
 "Equality, ordering and hashing of mixture keys are consistent with each other for every pair of keys, and distributing a count by ratio always returns non-negative parts that sum to the count.",
 ["inputs"],"all keys, counts and ratios",
 "Pure functions over unbounded inputs.",
 [Q+"mixture/mixture_key.py","mixtera/utils/utils.py"],["MixtureKey","distribute_by_ratio"])
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
import sys
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+"\n")
print(json.dumps(sch['properties']['anchors'])[:1500])
