"""Descriptions of the properties: the source of properties.jsonl and of MANIFEST.json (lib/genmeta.py)."""
META = []


def prop(pid, title, statement, over, text, why, files, mechanism, technique=None, note=None, na=None, state=None):
    a = {'files': files, 'mechanism': mechanism}
    if state:
        a['state'] = state
    META.append(dict(id=pid, title=title, statement=statement, quantifier={'over': over, 'text': text},
                     why_tests_cant=why, anchors=a, technique=technique, note=note, na=na))


SAME = ('Decides the stated rule on every function the extractor parsed, on the current source, without running it; trusts clang\'s AST and CFG, '
        'the class-hierarchy call graph and the tables named in DESIGN.md. ')

prop('C09', 'Writing a lattice never changes it',
     'Whatever output format is used, writing a lattice leaves it exactly as it was: no text, vertex, edge, partition, tag or score is added, '
     'removed or altered, so that the same lattice can be written again, in another format, or processed further.',
     ['inputs', 'configurations'], 'for every lattice, every writer and every combination of writer options',
     'The tests compare the output of a few writers on a few lattices; they never look at the lattice afterwards, and a write hidden behind an '
     'option or an unusual edge would not be run.',
     ['common/lattice_writer.hpp', 'common/lattice.cpp', 'formats/'],
     'writers receive a non-const Lattice&; no code reachable from a writer calls a function that modifies lattice content',
     'call-graph effect analysis', SAME + 'Virtual calls are over-approximated; the tag registry and the tag index, which are caches, are not content.')

prop('C10', 'Annotating never changes or removes what is already there',
     'An annotator only adds to the lattice: it never changes the text, and it never removes or replaces a vertex, an edge, a partition or the '
     'annotation item of an edge that is already in the lattice.',
     ['inputs', 'configurations', 'histories'], 'for every lattice, every annotator, every configuration and every order of annotators',
     'Tests check selected edges produced by an annotator on short sentences; destruction of other material elsewhere is not looked at.',
     ['common/annotator.hpp', 'common/lattice.cpp', 'tools/'],
     'the only function writing the text is unreachable from annotators; operations on the edge graph reachable from them are additive',
     'call-graph effect analysis', SAME)

prop('C22', 'Processing never touches standard input or standard output',
     'Readers, annotators and writers never read standard input and never print on standard output on their own: psi-pipe uses both for its own '
     'data, so the only bytes on standard output are those of the requested result.',
     ['inputs', 'configurations'], 'for every processor, input and option',
     'Tests call processors with their own streams and do not watch the process\'s standard streams; a debug print on a rare path goes unnoticed.',
     ['psi-pipe/psi-pipe.cpp', 'framework/pipe_runner.cpp', 'formats/', 'tools/', 'common/'],
     'std::cout, std::cin, stdout, stdin, printf and their relatives are not referenced by any function reachable from a processor',
     'call-graph effect analysis', SAME)

prop('C23', 'Library and server code never ends the process',
     'An error while configuring or running a processor, or while handling a web request, is reported to the caller; it never terminates the '
     'process by exit, abort or a similar call, so that one bad input cannot take down the server or a program embedding the toolkit.',
     ['inputs', 'configurations', 'fault_sequences'], 'for every input, rule file, option value and request',
     'Tests run in the same process and never feed the malformed rule files or faults that lead to such calls.',
     ['common/', 'formats/', 'framework/', 'server/', 'tools/'],
     'no function reachable from a processor, a factory, the pipe runner or a server site calls a process-ending function',
     'call-graph effect analysis', SAME + 'Assertions are not counted: they are compiled out of release builds.')

prop('C24', 'The result of processing is a function of its input',
     'Running the same pipeline on the same input with the same data files gives the same result: no processor consults a clock, a random '
     'number source, a process identity or the addresses of objects to decide what to produce.',
     ['inputs', 'histories'], 'for every processor, input and run',
     'A test runs each case once and cannot see a result that varies between runs, machines or moments.',
     ['common/', 'formats/', 'tools/', 'server/session.cpp'],
     'no function reachable from a processor calls a source of non-determinism or iterates a container ordered by object address',
     'call-graph effect analysis', SAME)

prop('C36', 'Processors keep nothing from one lattice to the next',
     'A configured processor can be used any number of times: what it does to a lattice does not depend on the lattices it processed before '
     '(training a tagger excepted), because processing changes neither the processor object nor any global or function-local static variable.',
     ['histories'], 'for every sequence of lattices given to one processor object',
     'Tests create a fresh processor for each case, whereas the server and the pipe reuse one object for every line and request.',
     ['common/annotator.cpp', 'common/lattice_worker.hpp', 'formats/', 'tools/'],
     'per-lattice state lives in worker objects created for each run; no function reachable from processing writes a processor field, a global or a static local',
     'interprocedural side-effect analysis', SAME + 'Eight scratch variables, each reset before use, are exempt by name. State kept inside '
     'third-party libraries (pcre, log4cpp, OpenFST, aspell) is not seen.',
     state='fields of processor classes, global and static variables')

prop('C07', 'What is thrown can be caught',
     'Every failure reported by an exception is an object of a class derived from std::exception, thrown by value and passed on whole (no pointers, '
     'no cut-down copies), so that the one handler psi-pipe, the server and the bindings have receives it; exceptions of another kind never leave '
     'the component that throws them.',
     ['fault_sequences', 'inputs'], 'for every error path of the program',
     'Error paths are run by few tests, and a wrongly thrown exception ends the process exactly in the rare failure it should report.',
     ['common/exception.hpp', 'psi-pipe/psi-pipe.cpp', 'server/psi_server.cpp', 'tools/', 'formats/'],
     'every throw site throws a class type derived from std::exception, by value; a handler rethrows with "throw;"',
     'interprocedural exception-escape analysis', SAME)

prop('C08', 'A failure ends the request, not the program',
     'Whatever goes wrong while input is processed, psi-pipe and psi-server answer with a message: no exception leaves main, a thread of the HTTP '
     'server, a destructor or a function declared not to throw; the server turns a failing pipeline into an answer, and a program whose run failed '
     'ends with a non-zero exit status.',
     ['fault_sequences', 'inputs', 'configurations'], 'for every exception raised anywhere in the program or by the libraries it calls',
     'Tests do not provoke failures inside worker threads or mains, where one uncaught exception ends the whole process.',
     ['framework/psi-pipe.cpp', 'server/psi-server.cpp', 'server/server/connection.cpp', 'server/server_runner.cpp', 'server/site/pipe_site.cpp', 'server/site/json_site.cpp'],
     'exceptions of the program and of the listed library functions are propagated over the call graph and filtered by the handlers',
     'interprocedural exception-escape analysis', SAME + 'Library exceptions are those of the listed functions; std::bad_alloc is not followed.')

prop('C11', 'The next element is taken only when there is one',
     'Readers, writers, annotators and rule engines never ask an edge, cutter, character or symbol sequence for its next element after the end: '
     'the request is always made when the sequence has just said that there is one, so an empty or exhausted sequence (an empty input, a lattice '
     'without tokens, a text that ends early) is processed as such and not as garbage.',
     ['inputs', 'histories'], 'for every lattice, text and rule file, however short',
     'Tests run on lattices that have the expected annotations; an exhausted iterator reads beyond a container only on the unusual lattice.',
     ['common/lattice_iter_wrapper.cpp', 'common/cutter.hpp', 'tools/', 'formats/'],
     'every call of next() on a class that has hasNext() is dominated by a positive hasNext() of the same object, with no other next() in between',
     'must-availability data flow (typestate)', SAME)

prop('C12', 'What was not found, or is not there, is not used',
     'When a symbol, layer tag, attribute, part of speech, language, edge or a position in a text is looked up and is not there, the program takes '
     'the path meant for that case; and it takes the first or last element of a list only when the list is not empty. An unknown name, an '
     'empty text or rule, or a missing bracket in the input never makes it read beyond a container.',
     ['inputs', 'configurations'], 'for every lookup, every text, every rule file and every lattice',
     'Tests look up what exists; the failing lookup needs a malformed rule, an unknown tag or an empty value at one particular call site.',
     ['common/', 'tools/', 'formats/', 'framework/', 'server/'],
     'the result of find and its relatives is compared with end()/npos on every path before it is used; front(), back() and their relatives are dominated by a test of emptiness',
     'must-availability data flow with obligations lifted to callers', SAME + 'First/last element accesses of the bonsai, lemmatizer-internal and third-party files listed in DESIGN.md are not decided.')

prop('C13', 'What may be absent is tested before use',
     'A processor, edge, object or file handle that may be absent (an annotator not built in, a category or source an edge does not have, a '
     'conversion that does not apply, a library call that failed) is tested before it is used, on every path.',
     ['inputs', 'configurations', 'fault_sequences'], 'for every pointer, optional value and conversion that can be empty',
     'Tests exercise the present case; the absent one depends on the input, on the data installed or on a failing system call.',
     ['common/', 'framework/', 'formats/', 'tools/', 'server/'],
     'results of dynamic_cast, of functions with a path returning NULL, of the listed library functions and of optionals are tested on every path to a dereference',
     'nullness must-data-flow', SAME + 'The zvalue object system of the shallow parsers is outside the scope, as DESIGN.md explains.')

prop('C01', 'The web server serves only files below its root',
     'No request, however its address is written or encoded, makes psi-server open a file outside the directory of the website: before a name '
     'that comes from a request is used to open a file it has been decoded, and it was checked to begin with "/" and not to contain "..".',
     ['inputs'], 'for every request line, header and form value',
     'The server has no unit tests in the suite, and a handful of requests cannot show that every encoding of every path is confined.',
     ['server/server/request_handler.cpp', 'server/site/template_site.hpp', 'server/mpfd-parser/Field.cpp', 'common/file_storage.cpp'],
     'every file opening of the server takes a name that is not derived from the request, or one for which the two tests hold on every path since its last change',
     'taint analysis combined with must-availability data flow', SAME + 'Files named by options of a processor in the pipeline are not covered: pipelines are trusted to name files.')

prop('C02', 'Answers of the web server are well formed',
     'Each answer of psi-server has the status line of its status, header lines separated as HTTP requires, and a Content-Length that is the size of '
     'the content sent, also after page parts were inserted into it; each part and action a page asks for is provided by a registered site.',
     ['inputs'], 'for every request and page',
     'No test looks at the bytes of an answer; a wrong length shows only for pages whose content was changed after the length was computed.',
     ['server/server/reply.cpp', 'server/server/request_handler.cpp', 'server/psi_request_handler.cpp', 'server/website/'],
     'status tables agree with the enumeration; Content-Length is assigned from the size of the content after the last change of the content on every path; directives of pages are registered',
     'table extraction and typestate data flow', SAME)

prop('C03', 'Visitors\' data cannot become part of the page\'s code',
     'What a visitor sent (text, pipeline, file names), what a pipeline produced from it and the texts of errors are put into web pages, scripts and '
     'JSON answers only in the encoded form that place requires, so that no input can change the structure of the page or of the answer.',
     ['inputs'], 'for every session value, output, error text and page part',
     'Tests insert harmless texts; only a text with quotes, angle brackets, backslashes or control characters at one particular place shows a missing encoding.',
     ['server/site/pipe_site.cpp', 'server/site/json_site.cpp', 'server/site/processor_documentation_site.cpp'],
     'values of sessions, outputs and errors reach a page part only through the encoding function of the context in which pages use that part; the encoding functions replace all special characters',
     'interprocedural taint analysis with page contexts', SAME + 'A pipeline that names the JSON writer is trusted to produce JSON.')

prop('C37', 'Requests served at the same time do not disturb each other',
     'With any number of server threads, sessions, sites, the form data being processed and every other variable that requests have in common are '
     'used by one thread at a time: no interleaving of '
     'requests can corrupt them or let one visitor\'s request work on another visitor\'s data.',
     ['interleavings'], 'for every interleaving of requests in the threads of the server',
     'A race needs two requests at the same moment on particular instructions; tests issue one request at a time.',
     ['server/psi_request_handler.cpp', 'server/server/connection.cpp', 'server/session_manager.cpp', 'server/psi_server.cpp', 'server/site/'],
     'state written during requests is accessed by the threads only while a lock on a mutex common to all threads is held',
     'lockset analysis over the call graph', SAME + 'Only the threads of psi-server are considered.',
     state='sessions, sites, form values, session manager')

prop('C38', 'A visitor gets only his or her own data',
     'The text, pipeline, results and errors of one visitor of the website are kept in that visitor\'s session and are never shown to another: sites '
     'keep nothing of a request in variables that requests of other visitors read.',
     ['histories', 'interleavings'], 'for every sequence of requests of different visitors',
     'Tests use one session; a leak needs requests of two visitors in a particular order.',
     ['server/psi_request_handler.cpp', 'server/session_manager.cpp', 'server/site/', 'server/psi_server.cpp'],
     'no function reachable from a request writes a field of a long-lived server object or a static variable, the listed hand-over fields excepted; the session is selected before anything of a session is used',
     'interprocedural side-effect analysis', SAME)

prop('C05', 'What is escaped can be read back',
     'A text written into a PSI or UTT file, a bracketing pattern or a lexicon and read again is the same text, whatever characters it contains: '
     'unescaping undoes escaping, an escaped text contains no character that separates the fields of its format, every text of the lattice that the '
     'PSI writer puts into a line is escaped first, and every text a reader takes from a line is unescaped.',
     ['inputs'], 'for every text, tag, category and value',
     'Tests escape a few sample texts; a clash between two escape sequences, or one field not escaped, shows only for a text with special characters in that field.',
     ['common/quoter.cpp', 'common/escaping.cpp', 'common/psi_quoter.cpp', 'formats/utt/utt_quoter.cpp', 'formats/psi/psi_writer/psi_lattice_writer.cpp',
      'formats/psi/psi_reader/psi_lattice_reader.hpp'],
     'abstract interpretation of the two functions of each quoter on sequences of up to two abstract characters; taint analysis of the PSI writer; no converted text is stored in a variable that is not used',
     'abstract interpretation over character classes, and taint analysis', SAME +
     'Round trips are decided for sequences of at most three (thorough: four) characters of every class the functions distinguish; functions using constructs the interpreter does not model are reported as undecided.')

prop('C14', 'Orders are orders',
     'Everything kept in a sorted container or sorted by an algorithm is compared by a strict weak order: no element is before itself, of two '
     'elements at most one is before the other, and being before and being equivalent are transitive; so no entry is lost, duplicated or not found '
     'because of the order in which elements were inserted.',
     ['inputs', 'histories'], 'for all elements compared',
     'A wrong order shows only for particular triples of elements inserted in a particular order.',
     ['common/', 'tools/', 'server/', 'formats/'],
     'each comparison function used by a set, map, queue or ordering algorithm is interpreted over all abstract states of two and three elements and must obey the four laws',
     'abstract interpretation over weak orderings of the compared keys', SAME + 'Floating-point keys are assumed not to be NaN; opaque functions are assumed to depend only on their arguments.')

prop('C15', 'Equal means equal',
     'Equality of edges, tags, masks, annotation items and the other compared things is an equivalence that takes every field into account, differs '
     'from inequality, and agrees with the order and the hash function used for the same things: equal things have equal hashes, also when the hash '
     'is stored, and none is before the other.',
     ['inputs', 'histories'], 'for all things compared or hashed',
     'Tests compare a few values; what is needed is a law for all pairs and triples, and for all ways to reach a state.',
     ['common/annotation_item.cpp', 'common/layer_tag_mask.cpp', 'common/layer_tag_collection.cpp', 'common/lattice.hpp', 'tools/'],
     'equality functions are interpreted over all abstract states of two and three elements; hash functions read only compared fields; a stored hash is recomputed where its sources change',
     'abstract interpretation over weak orderings of the compared keys', SAME + 'Opaque functions are assumed to depend only on their arguments; what the interpreter cannot model is reported as undecided.')

prop('C06', 'Options are read as they are declared',
     'Every option a processor (or psi-server) offers has an effect and can be given without failing: an option is read under the name and with the type it is '
     'declared with, the value of an option is only taken when it was given or has a default, an option without a value is only asked for, no processor '
     'reads an option that it does not declare, and every option that is declared is read somewhere.',
     ['inputs', 'configurations'], 'for every processor, every declared option and every combination of given and omitted options',
     'boost::program_options binds names and types at run time only (bad_any_cast when they disagree, an empty value when the option is missing); the tests run each '
     'processor with the few option sets its fixtures use, not with every subset of options.',
     ['common/processor_factory.hpp', 'common/language_dependent_annotator_factory.cpp', 'tools/', 'formats/', 'server/server_runner.cpp'],
     'options_description built by doOptionsHandled of each factory against every read of the variables_map it hands to its processors',
     'declaration/use agreement by interprocedural dataflow',
     SAME + 'Reads under computed names are taken to read every text of the function that makes them; another object that gets the map is followed when it is known statically.')

prop('C04', 'JSON and DOT outputs are well-formed',
     'What json-simple-writer, the JSON site of psi-server and dot-writer produce can be parsed: whatever text, categories, values, tags, errors or pipeline '
     'results they carry, every string is quoted and escaped, decodes to the text it stands for, elements are separated, none is lost, brackets are paired and nothing is written beside them.',
     ['inputs', 'configurations'], 'for every lattice, every request and every text in them, with every option of the writers',
     'The tests compare outputs for a few sentences of ordinary text; quotation marks, backslashes, control characters, empty groups and failing pipelines are '
     'combinations they do not contain.',
     ['formats/json-simple/', 'formats/dot/dot_lattice_writer.cpp', 'server/site/json_site.cpp'],
     'JSONLatticeWriterOutput keeps the invariant "what is written begins a JSON array, what is kept is JSON"; createEscapedJSONString_ and quoteLabel_ escape all characters; '
     'every text of the lattice passes through them',
     'inductive invariant by abstract interpretation over character classes, and taint analysis',
     SAME + 'The invariant is decided for every operation in every state with at most three open arrays of at most three elements, and texts of at most two (DOT: three) abstract characters. '
     'gv-writer hands texts to the graphviz library, which quotes them.')

prop('C18', 'Nothing is read before it has been given a value',
     'No local variable, field or result is used before it has been given a value: a variable of a built-in type is assigned on every path to each read of it, '
     'every constructor leaves no field unset that is read somewhere, fields are initialised in an order in which none needs a later one, and a function that '
     'promises a result gives one on every way out.',
     ['inputs', 'histories'], 'for every function and constructor of the framework, its processors and the server, on every path including exceptional ones',
     'A value that was never given is most often zero when a test runs, and something else in a process that has handled other texts before.',
     ['common/', 'formats/', 'tools/', 'server/', 'pipe/'],
     'every read of a local of built-in type, every field of every constructed class, every member initialiser list and every way out of a value-returning function',
     'definite-assignment dataflow over control-flow graphs with exception edges, interprocedural for constructors and output parameters',
     SAME + 'A path is excluded when constant flags tested on it contradict each other. Elements of arrays and contents of allocated memory are not tracked. '
     'Five locals whose assignment depends on a relation between values are excepted, with the reason, in rules/definite.py.')

prop('C30', 'Nothing that is gone is used',
     'No iterator, cursor, reference, pointer or text fragment is used after the thing it refers to was erased, moved, deleted or has gone out of scope: containers do not change '
     'under loops and references that go on, nothing deleted is used again, no function returns a reference to its own locals, and every text fragment kept '
     'in a lattice refers to a text that lives as long as the lattice.',
     ['inputs', 'histories'], 'for every iterator, element reference, character pointer, deleted object and text fragment',
     'Memory that has been released usually still holds its old contents while a test runs.',
     ['common/string_frag.hpp', 'common/lattice.cpp', 'common/', 'formats/', 'tools/', 'server/'],
     'every iterator, element reference and c_str pointer against every later change of its container; every delete against later uses; every returned reference; the origin of every StringFrag',
     'validity dataflow with interprocedural summaries of the containers that functions restructure, and escape analysis',
     SAME + 'Containers are told apart by the variable or field that names them; boost::graph descriptors of the lattice are stable because its vertices and edges are kept in lists or vectors that only grow.')

prop('C39', 'Every loop makes progress',
     'No loop can go on without coming closer to its end: on every path round a loop something that its end depends on is changed, moved on or read anew, so that no text, '
     'rule file, lattice or request makes a processor or the server go round for ever in the same state.',
     ['inputs', 'configurations'], 'for every loop and every path round it',
     'A path through a loop body that forgets to move on is taken only for particular inputs, and a test that took it would not end.',
     ['common/', 'formats/', 'tools/', 'server/', 'pipe/'],
     'every path through the body of every natural loop of the control-flow graphs changes a variable, stream, container or object on which a way out of the loop depends',
     'natural-loop analysis: dependence of the exits and effects of every path',
     SAME + 'That what is changed also reaches the exit (ranking) is not decided; loops over iterators of the library and element loops are bounded by their containers, which C30 keeps unchanged.')

prop('C33', 'What a processor defines about itself is what is used',
     'Whoever asks a processor, a factory, a promise, a worker or a cutter through the general interface gets what its class defines: a function meant to replace one of the '
     'general interface does replace it; the public functions hand their arguments to the function the class may define and give back its answer; aliases and promises ask the '
     'processor they stand for, about the same thing and with its options; no object is cut down to its base class, asked before it is complete, or destroyed as less than it is; '
     'and each processor is registered, under a name of its own, with a factory that makes it.',
     ['inputs'], 'for every processor and every question of the general interfaces, with all options',
     'A definition that is not used is silently replaced by a default, which differs only for particular processors, options and languages, most of which the tests never ask.',
     ['common/processor_factory.cpp', 'common/annotator_factory.cpp', 'common/processor_promise.cpp', 'common/annotator_promise.cpp', 'framework/from_configuration_annotator_factory.cpp', 'framework/main_factories_keeper.cpp', 'common/lattice_worker.cpp'],
     'every pair of a general function and a definition in a class is checked to be connected: overriding, forwarding, construction, destruction, registration',
     'class-hierarchy queries (hidden, misplaced, bypassed overriders; slicing; destruction) and path rules for forwarding functions', SAME)
prop('C35', 'However the lattice is asked, it gives the same edges',
     'The lattice keeps lists of the outgoing and incoming edges of each vertex for each layer mask asked for so far, beside the graph itself. An edge '
     'added or given more tags is found from its source and from its target under every mask its tags match and under no other, whether the mask was '
     'first asked for before or after; every vertex has a list for each mask in use; an implicit symbol edge is given exactly when the mask allows it; '
     'and an edge equal to one already in the lattice is not added a second time.',
     ['histories', 'inputs'], 'for every sequence of edges added, edges given new tags and questions asked',
     'The lists diverge only for particular orders of additions and questions with particular masks, while tests ask after adding, with few masks.',
     ['common/lattice.cpp', 'common/lattice.hpp'],
     'every change of the graph (vertex, edge, tags, mask, implicit edge) is followed on all paths by the matching insertion into all the lists',
     'symbolic walk over the effects of the lattice\'s functions, matched against the insertions each change owes',
     SAME + 'Removal of edges for text correction is not covered (see DESIGN.md).',
     state='Lattice::graph_, vertices_, indexedTagMasks_, vvcHash_, implicitOutEdges_ and the lists of VertexEntry')

prop('C40', 'However a request arrives, it is understood the same way',
     'A request that reaches the web server in one piece or in many, at whatever boundaries the network cuts it, is understood the same way: every byte that was read is given to the '
     'parser once and in order; nothing of what was understood is lost between two reads; the request is complete exactly at its blank line, or after as many bytes of body as it '
     'declares, whatever these bytes are; what cannot be a request is refused; and every request, complete or refused, is handled once and answered once, and only then.',
     ['inputs', 'schedules'], 'for every sequence of bytes and every way of cutting it into reads',
     'The tests call the request parser with no request at all; a browser on the same machine sends its requests in one piece, with short bodies without line breaks.',
     ['server/server/request_parser.cpp', 'server/server/request_parser.hpp', 'server/server/connection.cpp'],
     'the transition of the parser for one byte is computed for every state and class of bytes from its code, and the automaton it gives is held against the laws; every path of the reading handler starts exactly the operation the verdict asks for',
     'extraction of the automaton by abstract interpretation of one step, laws over its graph; path rules for the handler and the feeding loop',
     SAME + 'What the requests mean afterwards (decoding, dispatch to sites and actions) is not part of this property.',
     state='request_parser::state_, post_data_length_, post_data_length_counter_, connection::request_ and connection::buffer_')
