"""Properties of the Python tools (decided by pysim)."""
PYWHY = "The existing tests cover only the Rust crate; no test runs any Python tool."
PYNOTE = ("Seeded search over simulated executions of the real Python code: a clean run is evidence over the explored schedules and faults, not a proof. "
          "Threads and forked workers switch at lines, I/O calls and locks of the tool's own code; services (Elasticsearch, Hugging Face, cloud storage) are in-memory stand-ins, see the evidence file. "
          "Determinism is checked by re-running cases and comparing event hashes.")


def add(prop):
    def p(*a, **k):
        prop(*a, note=PYNOTE, py=True, **k)
    D = "wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py"
    E = "wimbd/es/__init__.py"
    p("P01", "parallel deduplication removes exactly the blocklisted documents",
      "deduplicate_by_hash.py removes exactly the documents whose text hash is on the blocklist, or, with --keep_first_occurrence, all but exactly one copy of each, for every number of processes and schedule of the workers. All other documents stay, in order and unchanged, and the reported numbers (per shard, per source and in total) are those removed. A run that exits 0 has written complete output, whatever failed. The shards it reads never change, and shards whose outputs would overwrite each other are refused.",
      ["schedules", "inputs", "fault_sequences", "crash_points"], "every set and place of shards, blocklist, process count, interleaving of the workers on the shared state and failing I/O call",
      "Workers race for the first occurrence through shared memory. " + PYWHY, [D], [("shared bitmap of seen hashes, guarded by a lock", D), ("process pool over shards", D)],
      state=[("mmap of seen hashes", "which hashes have been kept already", D)], observe=["output shards, report on stdout, exit status"])
    p("P02", "an Elasticsearch search for all hits yields every hit exactly once",
      "get_documents_containing_phrases with return_all_hits yields every document of the index that matches the phrases and filters exactly once, for every page size, number of shards and replicas and any distribution of sort values, also while documents are added, and closes the point in time it opened. It never ends normally after a failed or partial response; it raises an error instead.",
      ["inputs", "schedules", "fault_sequences", "histories"], "every index content, page size, replica choice, concurrent insertion and failing or partial response",
      "Pages are separate requests answered by different replicas. " + PYWHY, [E], [("paging with search_after over a point in time", E)], observe=["hits yielded, exception raised"])
    p("P03", "phrase counts are exact or an error is raised",
      "count_documents_containing_phrases and count_documents_for_each_phrase return exactly the number of documents that contain the phrases (with the given slop, or matching the regular expressions) and pass the filters, for every batch size and sequence of calls; get_indices reports every visible index with its number of documents and fields. Calls do not influence each other or change their arguments, and an incomplete or failed response raises an error instead of giving a wrong count.",
      ["inputs", "histories", "fault_sequences"], "every index content, sequence of calls, batch size and failing or partial response",
      "Needs partial responses and sequences of calls. " + PYWHY, [E], [("batched multi-search", E), ("subset filters built per call", E)], observe=["returned counts and index list, exception raised"])
    p("P04", "total occurrences of unigrams are exact over all shards",
      "count_total_occurrences_of_unigrams returns for every term exactly the number of its occurrences in all documents of the index, however the documents are spread over shards and replicas. An incomplete or failed response raises an error instead of giving a wrong number.",
      ["inputs", "configurations", "fault_sequences"], "every index content, number of shards and replicas and failing response",
      "Needs a sharded cluster and failing requests. " + PYWHY, [E], [("one term vector request per primary shard, summed", E)], observe=["returned counts, exception raised"])
    I = "wimbd/indexing/index_json_files.py"
    p("P05", "indexing can be repeated until every document is indexed exactly once",
      "An indexing run that exits 0 has indexed every document with non-empty text exactly once under its id with the requested fields, in an index with the requested number of shards, and saved exactly those ids if asked. After a failure or crash at any point the job can be run again with the same result, and the index never holds a document that is not in the input.",
      ["crash_points", "fault_sequences", "inputs", "schedules"], "every set of files, chunking, failing bulk request or item, crash point and repetition",
      "Needs rejected requests, lost responses and crashes. " + PYWHY, [I, E], [("bulk create actions with deterministic ids, conflicts counted as present", I)], observe=["content of the index, saved ids, exit status"])
    H = "wimbd/indexing/huggingface.py"
    p("P06", "saving a streamed dataset can be repeated without losing examples",
      "When huggingface.py exits 0 the saved files hold every example of every split exactly once, in order, with the text field renamed and at most the batch size per file. This holds also after earlier runs that failed or were killed at any point, with any number of writer threads and schedule.",
      ["crash_points", "fault_sequences", "schedules", "inputs"], "every dataset, batch size, number of writers, interleaving, stream or disk error and crash point",
      "Needs streams that break off and crashes while files are written. " + PYWHY, [H], [("numbered batch files written by a thread pool, existing ones skipped", H)], observe=["saved files, exit status"])
    U = "preparation/stack/get_urls.py"
    p("P07", "an interrupted listing of Stack urls is continued without losing urls",
      "When get_urls.py completes, its output file lists every url of every language exactly once and in order, also after earlier runs that failed, were interrupted or were killed at any point.",
      ["crash_points", "fault_sequences", "inputs"], "every set of languages, failing request or write, interrupt and crash point", "Needs crashes between requests and writes. " + PYWHY,
      [U], [("languages already in the output file are skipped", U)], observe=["output file, exit status"])
    S = "preparation/stack/download_url.py"
    p("P08", "an interrupted Stack download is repeated, not mistaken for complete",
      "When download_url.py exits 0 the output file holds every row of the remote file with its id, text and metadata, also after earlier runs that failed or were killed at any point.",
      ["crash_points", "fault_sequences", "inputs"], "every file, failing request or write and crash point", "Needs crashes while a file is written. " + PYWHY,
      [S], [("existing output is taken as done", S)], observe=["output file, exit status"])
    M = "preparation/mc4/combine_adjacent_files.py"
    p("P09", "consolidating mC4 objects loses and duplicates nothing",
      "When combine_adjacent_files.py exits 0, the output objects together hold the content of every input object exactly once, combined in order and never across prefixes, also after earlier runs that failed or were killed at any point. The input is unchanged.",
      ["crash_points", "fault_sequences", "inputs"], "every set of objects, failing or lost storage request and crash point", "Needs failing storage requests and crashes. " + PYWHY,
      [M], [("groups of adjacent objects composed into one, existing ones skipped", M)], observe=["objects in the output bucket, exit status"])
    C = "preparation/mc4/mc4.py"
    p("P10", "converting mC4 yields every record of every file exactly once",
      "When mc4.py exits 0, every input file has exactly one output object holding all its records in order with their ids and metadata, also after earlier runs that failed or were killed at any point. No output object is ever incomplete.",
      ["crash_points", "fault_sequences", "schedules", "inputs"], "every set of files, interleaving, failing storage or disk operation and crash point", "Needs failing uploads and crashes. " + PYWHY,
      [C], [("files converted in parallel, existing objects skipped", C)], observe=["objects in the output bucket, exit status"])
    W = "wimbd/url_counts/run.sh"
    p("P11", "the map-reduce analyses count every record once or fail",
      "A run.sh of the analyses (URLs, schemes, extensions, domains, lengths, dates, tokens per URL, language, PII by its rules about the text around a match, profanity by model and by taxonomy, sampling, dead links, sentiment of demographic terms) that exits 0 prints exactly the counts or means over all records of all input files, for every order of the jobs. When a mapper or the reducer fails or is killed, or an input file is damaged, it does not exit 0 with partial counts.",
      ["inputs", "schedules", "fault_sequences", "crash_points"], "every set of input files, order of the mapper jobs, failing or killed program and damaged file",
      "Needs mappers that fail or are killed in the middle of a pipeline. " + PYWHY, [W, "wimbd/url_counts/map_count.py", "wimbd/url_counts/reduce_count.py"],
      [("one mapper job per file run by GNU parallel, piped into one reducer", W)], observe=["output of the script, exit status"])
    O = "wimbd/text_and_url_overlaps/helper_scripts/"
    p("P12", "the overlap pipelines give exact duplicates and overlaps or fail",
      "The text and URL overlap tools give exact results: hash and URL counts, duplicate keys and counts, intersections of every combination of datasets, top examples, also for urls that are empty or have blanks, and the attributes written by deduplicate.py and decontaminate.py. For every order of the jobs, when a program of a pipeline fails or is killed or an input file is damaged they fail instead of exiting 0 with partial results.",
      ["inputs", "schedules", "fault_sequences", "crash_points"], "every set of shards and datasets, order of the jobs, failing or killed program and damaged file",
      "Needs programs that fail or are killed in the middle of a pipeline. " + PYWHY, ["wimbd/text_and_url_overlaps/deduplicate.py", "wimbd/text_and_url_overlaps/decontaminate.py", O + "run_combinations.py", O + "get_examples.py"],
      [("one hashing job per shard run by GNU parallel, then sort and uniq", O + "run_get_text_hashes.sh"), ("overlaps of n datasets built on those of n-1", O + "run_combinations.py")], observe=["files written, output, exit status"])
    p("P13", "splitting files keeps every line or document exactly once",
      "file_split.py splits every file of a folder into n parts that together hold exactly its lines in order. split_files.py puts every document into exactly one of train, valid and test by its hash, in order, with its id, also when several runs work at once; documents that already have an id are refused. A run that exits 0 is complete, also after earlier failures or crashes, and damaged input is an error.",
      ["inputs", "schedules", "fault_sequences", "crash_points"], "every set and naming of files, number of parts, interleaving of concurrent runs, failing disk operation and crash point",
      "Needs concurrent runs that create the same directories and failing writes. " + PYWHY, ["wimbd/utils/file_split.py", "wimbd/utils/split_files.py"],
      [("lines divided into parts named after the file", "wimbd/utils/file_split.py"), ("documents divided by the prefix of their hash", "wimbd/utils/split_files.py")], observe=["files written, exit status"])
    p("P17", "the overlap analysis of several datasets is exact and can be repeated",
      "When run_analysis.sh of the text and URL overlaps exits 0, the counts, the overlap of every combination of datasets, the table of overlap sizes, the duplicate counts and the top examples it has written are exactly those of its current input, for every order of the jobs and whatever earlier runs that failed or were killed have left. When a program of the pipeline fails or a shard is damaged it does not exit 0 with partial results.",
      ["inputs", "schedules", "fault_sequences", "crash_points", "histories"], "every set of datasets and shards, order of the jobs, failing or killed program, kill of the whole pipeline, change of the input between runs and damaged shard",
      "Needs pipelines that break off and are repeated over partial results. " + PYWHY, ["wimbd/text_and_url_overlaps/run_analysis.sh", O + "run_combinations.py", O + "run_get_examples.sh", O + "run_get_urls.sh"],
      [("stages that read the files of the previous stage", "wimbd/text_and_url_overlaps/run_analysis.sh"), ("overlaps of n datasets built on those of n-1", O + "run_combinations.py")], observe=["files written, exit status"])
    TP = "wimbd/contamination/templates.py"
    p("P18", "edits of prompt templates survive failures and crashes",
      "Adding, changing, renaming or removing the prompt templates of a dataset leaves its file holding exactly the templates after all edits that succeeded: an edit that fails or is killed leaves the old or the new set, never a damaged file, and never touches the templates of other datasets or subsets. promptsource_parse.py writes exactly the fields its templates use, or fails.",
      ["histories", "fault_sequences", "crash_points"], "every sequence of edits by successive processes, set of datasets and subsets, disk error and kill",
      "Needs disk errors and crashes during a write. " + PYWHY, [TP, "wimbd/contamination/promptsource_parse.py"],
      [("one YAML file per dataset or subset, rewritten on every edit", TP + " DatasetTemplates"), ("folders scanned for template files", TP + " TemplateCollection")], observe=["template files as read by the next process, parsed output, exception raised"])
    U = "wimbd/contamination/utils.py"
    p("P19", "the list of English datasets is complete over all pages, or an error is raised",
      "filter_english_datasets and list_datasets return exactly the datasets of the hub, over all pages of its listing, among whose language tags (a list, or one tag without a list) is en or en-US, each once and sorted. Datasets without card or language are left out. A request that fails, is refused or breaks off raises an error instead of giving an incomplete list.",
      ["inputs", "histories", "fault_sequences"], "every set of datasets and their cards, page size, sequence of calls and failing request", "Needs a paginated listing whose pages can fail. " + PYWHY,
      [U], [("pages followed one after another", U + " filter_english_datasets")], observe=["names returned, exception raised"])
    LS = "wimbd/sentence_lengths/summarize.py"
    p("P20", "the summaries of text lengths give the exact shares of every dataset",
      "When summarize.py exits 0, it has written for every dataset in its folder of counted lengths two complete summaries, one of the lengths in tokens and one in characters, that give for every length its exact share of the texts counted in that unit. This holds also after earlier runs that failed or were killed at any point, and over older summaries; broken counts are an error. The counts are unchanged.",
      ["inputs", "fault_sequences", "crash_points"], "every set of datasets and counted lengths, order of the folder, failing disk operation, crash point and repetition", "Needs failing writes and crashes. " + PYWHY,
      [LS], [("counts per unit collected per file, then divided by their sum", LS)], observe=["summaries written, exit status"])
    RU = "runs/run_analysis.sh"
    p("P21", "the analysis of a dataset writes every result to its own file or fails",
      "When runs/run_analysis.sh exits 0, the result of every analysis it runs (summary, top-k n-grams for n = 1, 2, 3, 5, 10 and 100, bottom-k, unique n-grams, duplicates, lengths, URLs per token, URLs, schemes, high-level domains, PII, profanity) over all files of the dataset is complete, each in a file of its own (the number of unique n-grams is printed). When an analysis fails, is killed or cannot write its result, it does not exit 0.",
      ["inputs", "fault_sequences", "crash_points"], "every set of files, failing or killed analysis and failing write", "Needs analyses that fail or are killed in the middle of a long script. " + PYWHY,
      [RU], [("analyses run one after another, results named after dataset and n", RU)], observe=["files written, output, exit status"])
    PC = "runs/p3_contamination.py"
    p("P22", "the contamination of many datasets is measured once each, whatever fails",
      "runs/p3_contamination.py measures, for each of its four corpora, every split of at most 25000 examples with 'test' in its name of every listed dataset that has two or more fields, exactly once, with the names and fields of the list. A dataset that cannot be loaded is left out only where it cannot be loaded; a measurement that fails or is killed is reported as failed and leaves out nothing else.",
      ["inputs", "fault_sequences", "crash_points", "histories"], "every list of datasets, splits and sizes, moment at which a dataset cannot be loaded, failing or killed measurement", "Needs datasets that cannot be loaded at times and measurements that fail or are killed. " + PYWHY,
      [PC], [("one process per corpus, dataset and split", PC)], observe=["measurements started, output, exit status"])
    CC = "wimbd/es/corpus_contamination.py"
    p("P14", "the reported contamination of a dataset is exact or an error is raised",
      "corpus_contamination.py reports exactly the number and share of examples of the named split for which one document of the index contains the field, or all given fields, as phrases, for any number of examples. An incomplete or failed response raises an error instead of giving a wrong share.",
      ["inputs", "fault_sequences"], "every dataset, set of fields, index content and failing or partial response", "Needs partial responses and more examples than fit one request. " + PYWHY,
      [CC, E], [("one phrase query per example, in batches", CC)], observe=["printed share, summary, exit status"])
    RA = "wimbd/es/random_access.py"
    p("P15", "random documents come from the requested index and ids",
      "random_documents returns exactly n documents of the requested index, and random_access one, each among the ids in the file of that index and with its stored content; every id can be drawn. An unknown index or a failed request raises an error.",
      ["inputs", "histories", "fault_sequences"], "every index, file of ids, sequence of calls and failing request", "Needs a cluster with several indices. " + PYWHY,
      [RA], [("ids drawn from an HDF5 file and fetched together", RA)], observe=["documents returned, exception raised"])
    DL = "preparation/stack/download.sh"
    p("P16", "downloading a list of Stack files fetches all that are missing, or fails",
      "When download.sh exits 0, every file of the list is there and complete: missing and empty ones were downloaded, whatever failed in earlier runs, and those that were there are not downloaded again. When a download fails, or the list or the token is missing, it does not exit 0. This holds for every order of the jobs.",
      ["inputs", "schedules", "fault_sequences", "crash_points"], "every list of urls, set of files already there, order of the jobs, unreachable file, failing or killed download", "Needs downloads that fail or are killed. " + PYWHY,
      [DL, "preparation/stack/download_url.sh", S], [("one job per url run by GNU parallel, existing files skipped", "preparation/stack/download_url.sh")], observe=["files written, requests made, exit status"])
