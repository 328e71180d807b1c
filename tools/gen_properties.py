#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording is reviewable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mechanism,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mechanism],observe_at=observe,hook_needed=hook)))
SV='internal/server/server.go';ST='internal/storage/storage.go';CS='internal/collation/schema.go';CC='internal/collation/compile.go';CM='internal/collation/measure.go'
BM='internal/bufmap/bufmap.go';IM='internal/incmap/incmap.go';SL='internal/seqlock/seqlock.go';HL='internal/summary/hll/hll.go';BL='internal/summary/bloom/bloom.go'
S64='internal/summary/stat64/stats.go';BB='internal/bitbucket/bitbucket.go';FN='internal/hash/fnv/fnv.go';QR='internal/query/rough.go';SS='internal/stats/stats.go'

p('C01','Reported statistics equal the statistics of the observations received',
 "For any sequence of accepted observations, querying a collation instance returns the exact number of observations routed to it and, for each measured field, the exact count, maximum and minimum of the (finite) values of that field received so far. The sum, mean and sample variance equal the exact values up to floating point rounding, also for values that are negative, tiny, huge or far from zero relative to their spread. This holds whichever of the measured fields each observation carries, including when the first observation of an instance lacks some of them.",
 ['inputs','histories'],'all finite sequences of observations with finite numeric values, all subsets of fields present per observation, all query points in the sequence',
 'No test drives ingestion to query at all (server and storage have no tests); the collation tests use one field, positive integers, every field always present and never use max or min.',
 [SV,ST,CS,CM,CC,S64,BM],[('collator update and read',CS+' Collator.Update/Read'),('per-measure writers and readers',CM),('running mean and variance',S64+' Update')],
 ['HTTP GET /collation/{name}','Store.Read results'])
p('C02','Each observation counts in exactly the instances its key values select',
 "An observation that has all of a collation's key fields is counted once in the one instance identified by the values of those fields, in every configured collation, and in no other instance; one that lacks a key field changes nothing in that collation and is not an error. Neither the order of fields nor the presence of other fields in an observation or a query affects which instance is selected, and a query whose criteria do not select an existing instance reports no values.",
 ['inputs','histories','configurations'],'all schemas with zero or more key fields, all assignments of byte-string values to fields, all orders of fields and criteria',
 'The tests compare the key hash of four fixed rows; no test ingests into two instances or two collations and looks at both.',
 [ST,CS,SV,FN],[('key selection and hashing',CS+' FVList.KeyValue'),('routing to stores',SV+' recvObservation'),('store read/write by key',ST)],
 ['HTTP POST /obs then GET /collation/{name}'])
p('C03','Concurrent ingestion loses and duplicates nothing',
 "When any number of clients send observations concurrently, once all of them have been acknowledged every instance reports exactly the statistics of all the acknowledged observations routed to it, each applied once. This includes observations that race to create the same new instance and instances whose keys contend for the same storage slots.",
 ['schedules','histories'],'all interleavings of concurrent writers over shared, distinct and freshly created keys',
 'One schedule of five goroutines incrementing one number in one slot is tested; instance creation races, slot collisions and measures that depend on initialisation are not.',
 [BM,ST,CS,SV],[('slot claim by compare and swap',BM+' Update'),('per-slot writer lock',BM+' slot.mu'),('one-time initialisation',BM+' slot.set')],
 ['final query after all acknowledgements','Store.Write/Store.Read'],hook='yield points in the keyed buffer map (build tag verif)')
p('C04','A query concurrent with ingestion reports a consistent snapshot',
 "All values in a query response are computed from one and the same set of observations of the instance. That set contains every observation acknowledged before the query was sent and none sent after the response was received, and later queries never see fewer observations than earlier ones.",
 ['schedules','histories'],'all interleavings of concurrent ingestion and queries on the same instance',
 'No test reads while another goroutine writes.',
 [BM,ST,SV],[('sequence lock read/retry',BM+' Get'),('sequence lock write',BM+' Update')],
 ['HTTP responses and Store.Read results with call/return times'],hook='yield points in the keyed buffer map (build tag verif)')
p('C05','No data races',
 "Concurrent use of the server (ingestion and queries in any mix), of one keyed buffer map, counter map or sequence lock shared by many goroutines, and of separate hashes, filters, counters and summaries in separate goroutines, is free of data races as defined by the Go memory model.",
 ['schedules'],'all concurrent workloads over the exported operations documented as safe for concurrent use, and over independent objects',
 'The suite is run without the race detector and has no test in which reads overlap writes.',
 [BM,IM,SL,SV,ST,CS,HL,BL,BB,FN,S64,QR],[('atomic access to keys, sequence numbers and values',BM),('atomic counters',IM),('sequence lock',SL)],
 ['Go race detector reports'])
p('C06','A rejected observation leaves every instance consistent',
 "If an observation is rejected because a measured value is not a number, then no value reported for any instance of the collation that rejected it changes, whether or not other fields of the same observation were valid and whether or not its instance already existed, and it takes no room from others. Observations accepted afterwards for the same instance are collated and reported normally.",
 ['inputs','histories','fault_sequences'],'all positions of the invalid field within an observation, all histories of accepted and rejected observations per instance',
 'No test feeds an unparseable value; no test checks state after an error.',
 [BM,CS,ST,SV],[('update on a private copy, committed on success',BM+' Update'),('parse error propagation',CS+' Collator.Update')],
 ['query responses before and after a rejected POST'])
p('C07','Unique counts are within the error of the configured precision',
 "For any set of distinct values, whatever their content or structure (sequential numbers, short codes, values differing only in their last characters, long or binary strings), the unique count reported is zero for none, exactly one for one, and otherwise within a few standard errors (1.04/sqrt(2^precision)) of the true number. This holds for every precision from 4 to 18 and from a handful to many times 2^precision values.",
 ['inputs','configurations'],'all sets of values, all precisions 4..18, all cardinalities in the usable range',
 'The parallel subtests capture the loop variable, so only precision 16 with 10 random 8-byte values is really tested; real data (decimal numbers, codes) is not random bytes.',
 [HL,FN,CM],[('register update',HL+' Counter.Add'),('estimators and thresholds',HL+' Counter.Count'),('hash',FN+' Sum64')],
 ['unique count query','counter estimate'])
p('C08','Unique counts depend only on the set of distinct values',
 "The unique count reported for a field depends only on which distinct values were observed: repeating values, reordering or splitting observations, interleaving concurrent writers, or restoring the state from its stored form at any point changes nothing. Two instances or counters of the same precision that have seen the same set always report the same number.",
 ['inputs','histories','schedules'],'all multisets, orders and partitions of values over writers; all save/restore points',
 'Tests add each value once in one order.',
 [HL,BB,CM],[('register maximum',HL+' Counter.Add'),('state adopted from buffer',HL+' WithBytes'),('packed registers',BB)],
 ['counter estimate','unique count query','serialized state'])
p('C09','The keyed buffer map behaves as a map with atomic updates',
 "For any history of updates and reads over any keys, a read returns exactly the bytes left by the last successful update of that key, complete and without bytes of any other key, and reports keys never successfully updated as not found. The first successful update of each key, and no other, is told that the value is new; a failed update changes nothing and takes no room; key zero is rejected. A key once accepted is always accepted, and a new key is refused only when at least eleven other keys (or as many as there are slots, if fewer) are held.",
 ['inputs','histories','schedules'],'all map and buffer sizes, all key sequences including colliding ones, all interleavings of updates and reads, updates that fail or panic',
 'Tests use one key in a map of 1000 8-byte slots.',
 [BM],[('linear probing',BM+' pos/Get/Update'),('seqlock per slot',BM),('init flag',BM+' slot.set')],
 ['return values of Get and Update','arguments passed to the update function'],hook='yield points in the keyed buffer map (build tag verif)')
p('C10','A full collation refuses new instances and keeps serving existing ones',
 "When a collation has no room for another instance, observations for new key values are answered with an error and leave all reported values unchanged, while observations and queries for existing instances continue to work exactly as before. Every key value that was accepted once keeps being accepted, and no value reported for one instance is ever affected by another.",
 ['histories','configurations','inputs'],'all capacities, all arrival orders of more keys than fit',
 'No test fills a store.',
 [BM,ST,SV],[('probe limit and error',BM+' Update'),('error to HTTP status',SV+' recvObservation')],
 ['POST status, query responses'])
p('C11','The counter map conserves increments',
 "For any set of sequential or concurrent increments, the value of each key equals the sum of the successful increments applied to it (modulo 2^64); a refused increment changes nothing, key zero is refused and never found, and keys never incremented are not found. A concurrent read returns the sum of a set of increments that includes every one completed before the read began and none begun after it ended, and successive reads only grow by whole increments.",
 ['schedules','histories','inputs'],'all key/amount sequences, map sizes and interleavings',
 'Tests increment one key by 1 from many goroutines and read only afterwards.',
 [IM],[('slot claim',IM+' Inc'),('atomic add',IM+' Inc'),('probe',IM+' pos')],
 ['return values of Inc and Get'],hook='yield points in the counter map (build tag verif)')
p('C12','The sequence lock is a linearizable register',
 "A read returns, whole and unmixed, the value of a single write, never one older than the latest write completed before the read began nor one begun after it ended. Concurrent read-modify-write updates are applied one after another with none lost, each seeing the result of the previous write, and an update that fails leaves the value unchanged.",
 ['schedules','histories'],'all interleavings of reads, writes, updates and failing updates',
 'One test increments concurrently and reads only at the end; nothing reads during writes or fails an update.',
 [SL],[('sequence check and retry',SL+' Get'),('writer lock',SL+' Put/Update')],
 ['return values of Get, data seen by update functions'],hook='yield points in the sequence lock (build tag verif)')
p('C13','A query means what it says',
 "Any query written in the supported form, select m1(f1), m2(f2), ... where k1='v1' and k2='v2' ..., parses to exactly the requested measures, grouped by field in the order first mentioned, and exactly the given criteria in order, whatever the case of the keywords, the amount of white space and the content of the quoted values (other than quotes and line breaks). Text without the select ... where ... form is rejected with an error, and no input causes a crash.",
 ['inputs'],'all abstract queries and their renderings; all byte strings',
 'Seven fixed queries; the order of fields was random and the test flaky; no value contains keywords, = or other special characters.',
 [QR],[('regular expressions',QR),('grouping by field',QR+' RoughParse')],
 ['parsed query','HTTP response to a query'])
p('C14','All ways of sending the same observations have the same effect',
 "The same observations give the same reported values whether sent one per request or many, as form data or as a plain text or octet-stream body, with or without a final newline, with LF or CRLF line ends, and with any delimiter byte that does not occur in the data. The first byte after the leading timestamp is the delimiter, the text before the first = of each part is the field name and everything after it is the value. A part without = is a field with an empty value.",
 ['inputs','histories'],'all batches of observations, all partitions into requests, all encodings and delimiters',
 'There is no test of the observation format or of the server.',
 [SV],[('row parser',SV+' parseRow/parseFV'),('media types',SV+' recvObservation')],
 ['POST /obs followed by queries'])
p('C15','The HTTP interface answers every request as documented',
 "Observations are accepted only by POST on the observation path with a supported media type, and queries only by GET or POST on the path of an existing collation; wrong methods, unknown paths or collations, unsupported media types, missing data and unparseable queries get the corresponding 4xx status and change nothing. Lines that do not begin with a timestamp are refused with an error. A successful query response lists the criteria and then one line measure(field)=value per known requested measure in the requested order, and all responses disable caching.",
 ['inputs','histories'],'all methods, paths, media types and query texts',
 'There is no test of the server.',
 [SV],[('handlers',SV+' registerHandlers'),('query response',SV+' queryCollation'),('cache header',SV+' ServeHTTP')],
 ['HTTP status, headers and bodies'])
p('C16','A bit bucket is an array of small saturating integers',
 "For any width from 1 to 8 bits and any number of buckets, reading a bucket returns the last value stored in it, values and increments beyond the maximum are capped at the maximum, and no operation on one bucket changes any other bucket. Counting buckets by value, resetting and the reported sizes agree with the contents.",
 ['inputs','histories'],'all widths, sizes and operation sequences',
 'Three hand-made layouts with single operations on them are tested.',
 [BB],[('bit extraction',BB+' extract/get/set/incn')],['Get/Set/IncN/CountN/Reset results'])
p('C17','The bloom filter never forgets an item',
 "Every item added to a bloom filter is reported as present ever after, for any items, any number of bits and hash functions or any capacity and error rate it was created with, whatever else is added, and also after the filter is stored and restored or adopted from a buffer. After a reset no item is reported present in a filter with at least one hash function.",
 ['inputs','histories'],'all item sequences, all parameters, all save/restore points',
 'One item in a 1024-bit filter is tested.',
 [BL,BB],[('double hashing',BL+' hasher'),('membership',BL+' Add/Has')],['Has results'])
p('C18','Bloom filter error rate and estimates are as advertised',
 "A filter created for n items (several hundred or more) and false positive rate p reports absent items as present at about the rate p when it holds n items. Its item count estimate is close to the number of distinct items added, and its error rate estimate is close to the actual rate at any fill level; both are zero for an empty filter and never negative or infinite.",
 ['inputs','configurations'],'all n, p, fill levels and item populations',
 'One count estimate is tested; the false positive rate and the error rate estimate never are.',
 [BL],[('sizing',BL+' mk'),('estimates',BL+' Count/ErrorRate'),('hash independence',BL+' hasher')],['measured false positives','Count','ErrorRate'])
p('C19','Stored summaries are restored exactly',
 "Writing a bit bucket, bloom filter or unique counter and reading it back, or adopting the written bytes as its storage, gives an object that behaves identically to the original under all further operations, however the reader or writer splits the data, and also when read into an object previously used for something else. The number of bytes written equals the advertised length, which also depends only on the parameters, and changes made through an adopted buffer are made to that buffer and nothing outside it.",
 ['inputs','histories'],'all parameters, contents, chunkings of the stream and subsequent operations',
 'One small object of each type is round-tripped from a bytes.Reader.',
 [BB,BL,HL],[('WriteTo/ReadFrom/WithBytes/Len',BB),('headers',BL+', '+HL)],['bytes written','behaviour of restored objects'])
p('C20','Damaged data and failing streams give errors, not crashes',
 "Reading or adopting truncated, extended, corrupted or arbitrary bytes as a bit bucket, bloom filter or unique counter either returns an error or an object whose operations work; it never panics and never allocates memory out of proportion to the data present. Truncation, trailing bytes in a stream and unknown versions are always errors, and errors of the underlying reader or writer are reported together with the number of bytes actually transferred. A read that fails leaves the object working, with what it held before or with what was read, not a mixture.",
 ['inputs','fault_sequences'],'all byte strings, all truncation points, all points at which the stream fails',
 'Tests try one wrong version and one extra byte.',
 [BB,BL,HL],[('header validation',BB+' WithBytes/ReadFrom'),('consistency checks',BL+', '+HL)],['errors, panics and byte counts'])
p('C21','Hashes equal standard FNV-1 and FNV-1a however data is supplied',
 "For any data, the 64-bit FNV-1 and FNV-1a hashes equal those of the Go standard library, whether computed in one call or streamed in any mix of chunks, single bytes, strings and big-endian integers, with sums taken at any point without disturbing the state. Resetting restores the initial state and sums are appended to the supplied buffer in big-endian order.",
 ['inputs','histories'],'all byte strings and all ways of splitting them over the write operations',
 'One sentence and a few bytes are tested.',
 [FN],[('hash loops',FN)],['hash values'])
p('C22','Streaming summaries are numerically correct at any length and scale',
 "A streaming summary fed any sequence of finite values, singly or in groups of any size, reports their exact count and, up to floating point rounding, their sum, mean and sample variance, with no catastrophic cancellation when values are far from zero; the variance is never negative and is not a number for fewer than two values. Grouped and single updates are interchangeable, a reset summary behaves as new, state lives entirely in the supplied buffer, and the batch functions for mean, sample variance and sum agree with it.",
 ['inputs','histories'],'all finite sequences and groupings of finite values',
 'One sequence of eight small integers is tested; the batch functions are untested.',
 [S64,SS],[('Welford recurrence',S64+' Update/UpdateMulti'),('batch statistics',SS)],['Count/Sum/Mean/Variance results'])
p('C23','Measures of a collation do not interfere with one another',
 "The value reported for a measure of a field is the same whatever other measures and fields the collation has and in whatever order they are declared, for every combination of measures (several on one field, the same field listed more than once, fields that are also keys). Collating never touches memory outside the advertised record size, needs nothing of the memory it is given to initialise, and reading changes nothing; schemas with an invalid unique count precision are refused.",
 ['configurations','inputs'],'all schemas over all measures, all observation sequences',
 'Four schemas are tested, each with one field.',
 [CC,CS,CM],[('record layout',CC+' Compile'),('shared summary for count, sum, mean, variance',CC),('initialisation',CS+' Collator.Update')],
 ['Collator.Read results','bytes around the record buffer'])
p('C24','The demo server gives the right answers for the airport data',
 "The program as shipped, loaded with any part of the airport data set in any order and by any number of clients, answers every query on the country and tz collations (record counts; mean, sum, variance, max and min height; unique codes, countries and heights) with the statistics of the data sent.",
 ['inputs','histories','schedules'],'all subsets, orders and distributions over clients of the data set, all keys in it',
 'No test starts the program.',
 ['demo.go','starbow.go',SV,ST],[('demo schemas','demo.go setupDemo'),('server','starbow.go main')],['HTTP responses of the built binary'])
p('C25','An interrupted upload stores a whole-line prefix',
 "If the upload of a batch of observations is cut off at any byte, or one of its lines is rejected, the observations stored are exactly those of some leading run of its complete lines: never part of a line, never a later line without the earlier ones, never a line twice; and an upload that is cut off is never acknowledged as a success. When a line is rejected exactly the lines before it are stored and the response is an error, and the server goes on answering other requests.",
 ['crash_points','fault_sequences','inputs'],'all cut points of all batches in all body encodings, all positions of a bad line',
 'There is no test of the server.',
 [SV],[('line scanner and read errors',SV+' recvObservation')],['queries after the connection was cut'])
p('C26','Queries change nothing and repeat exactly',
 "Queries never change the state: any number of queries of any kind (valid, unknown measures or instances, malformed), alone or concurrently, leaves all later answers as they would have been without them. With no ingestion in between, the same query always gets the byte-identical response, and the line reported for a measure is the same whichever other measures are requested with it.",
 ['inputs','histories','schedules'],'all query sequences and combinations of measures in a query',
 'No test queries the server; the parser test compared results whose order was random.',
 [SV,ST,CS,QR],[('read path',ST+' Read'),('ordered parse',QR+' RoughParse'),('measure readers',CM)],['HTTP response bodies'])
p('C27','The server serves until it is told to stop, and says so if it cannot',
 "A server listens on the network and address it is configured with (TCP port 2525 if none is) and answers every well-formed request from the moment connections are accepted, however slowly it is sent and whatever other clients do: stall, abort, hang up, send garbage or pipeline without reading. It goes on until the process receives SIGINT or SIGTERM, whenever that comes after the server has asked for signals; then Serve returns promptly and without error, and the program exits with status 0. If it cannot listen, Serve returns an error at once, and the program reports it and exits with a failure status. Clients that are gone leave no goroutines or descriptors behind.",
 ['histories','schedules','fault_sequences'],'all client behaviours, all moments at which a signal arrives, all addresses',
 'No test starts a server; when a signal arrives relative to the steps of signal handling cannot be chosen by a test.',
 [SV,'starbow.go'],[('listen and serve',SV+' Serve'),('wait for signals',SV+' waitSignal'),('exit status','starbow.go main')],['responses','return of Serve','exit status, standard error','goroutines and descriptors of the process'],
 hook='yield point after the server has asked for signals')
p('C28','A store works over any backend that keeps the contract',
 "A store depends on its backend only through the contract of the Backend interface. The backend may call the update function any number of times for one observation, on copies of the record, on older versions of it or on uninitialised memory to be initialised, discard all results but one and reuse the memory: the observation counts exactly once, and the store retains neither the record, the buffer nor the observation it was given. An error of the backend reaches the sender of the observation, which then does not count; a record the backend does not have yields no values. An observation whose context has ended reports that error and changes nothing.",
 ['inputs','histories','fault_sequences','schedules'],'all sequences of trials, discarded results and errors a backend may go through',
 'The only backend in the repository is the buffer map; tests write and read a few rows through it.',
 [ST,CS,CM],[('transaction',ST+' Transaction.Do'),('update',CS+' Collator.Update'),('context',ST+' Write')],['Store.Write errors','Store.Read results'])
p('C29','Memory does not grow with the number of requests or the size of an upload',
 "The memory a server needs is fixed by the sizes of its stores. However many observations (of new or known instances, accepted or rejected), queries, malformed requests and connections it has served, whatever new names and values they contain, it holds no more memory, goroutines and open files afterwards than before. While an upload comes in, of any size and framing, it holds only a bounded part of it.",
 ['inputs','histories'],'all numbers and kinds of requests, all sizes of uploads',
 'Tests make a handful of calls; growth shows only over many requests.',
 [SV,ST,BM,QR],[('streaming of uploads',SV+' recvObservation'),('fixed size table',BM+' New'),('read buffer',ST+' Read')],['live heap of the process','peak memory of the process'])
p('C30','Everything is answered in bounded time',
 "Each observation and query is answered in a time bounded by its own size: queries complete while writers never stop writing to the same instance, writers complete while others write and read, operations on other, new, absent or refused instances complete beside them and in full stores, and requests with very many or very large criteria, measures, fields, separators, values or lines neither take more than seconds nor keep small requests beside them waiting.",
 ['schedules','inputs'],'all mixes of concurrent readers and writers, all request shapes up to megabytes',
 'Starvation and superlinear work show only under sustained concurrency or large inputs.',
 [BM,SV,QR,ST],[('optimistic reads',BM+' Get'),('bounded probing',BM+' Update'),('query parser',QR+' RoughParse'),('row parser',SV+' parseRow')],['completion of each operation within 20 s'])
p('C31','The stored form of a version is fixed',
 "The stored form (version 1) of bit buckets, bloom filters and unique counters is the same whichever build of the program writes it, so that data stored by one are understood by another: for all parameters, items and histories the header fields, the byte order, the place of every bucket and the bits or the register that an item sets are the same. Data stored earlier are read, or adopted, with exactly the contents they had and go on like the original, and the same contents always give the same bytes.",
 ['inputs','histories'],'all parameters, items and sequences of operations and of storing and restoring',
 'Tests write and read with the same build, so a change of both sides passes; two golden values do not settle it for all widths, positions and items.',
 [BB,BL,HL],[('layout of buckets',BB+' WriteTo, set, get'),('probes of an item',BL+' newHasher, next'),('register of an item',HL+' Add')],['bytes written','contents after reading or adopting bytes made elsewhere'])
p('C32','Objects share nothing with each other or with their callers',
 "What a hash, bit bucket, filter, counter, summary, map, lock, parsed query, store or server answers depends only on the operations on that object: any number of others of the same or another kind and configuration, used in between or at the same time, change nothing. Memory passed to a call (items, observations, queries, schemas, values, data to read) is neither changed nor written beside nor used again after the call, except a buffer adopted as storage, and the memory of results belongs to the caller.",
 ['inputs','histories','schedules'],'all interleavings of operations on separate objects, all reuse of memory by callers',
 'Tests use one object at a time, with arguments that are never overwritten.',
 [CS,ST,BM,QR,FN,BB,BL,HL],[('observation of a store',ST+' Write'),('rows share the buffer of the scanner',SV+' parseRow'),('compiled schema','internal/collation/compile.go Compile'),('parsed query',QR+' RoughParse')],['results of calls','arguments after calls'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
