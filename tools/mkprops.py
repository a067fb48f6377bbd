#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "A catalogue switch is atomic for every query",
 "While catalogues are loaded and queried by any number of callers, every answer (search results with their filters and sort order, tag, category and sort-order listings, tag suggestions) comes entirely from one single loaded catalogue, and that catalogue was the current one at some instant during the call. "
 "Once a load has returned, no later call answers from an older catalogue, and a search whose active filter selections were made on a catalogue that is no longer loaded returns no result rather than a mixture.",
 ["schedules", "histories"],
 "every interleaving of load, search, listing and suggestion calls issued by several caller threads, and every history of reloads between them",
 "the tests never call the loading or searching entry points at all, let alone concurrently; a mixture needs a load to land between two particular steps of a search",
 ["src/lib.rs", "src/js_interactable/category_handler.rs", "src/js_interactable/tag_handler.rs"],
 [("initialize installs both halves of the index", "src/lib.rs initialize"), ("search reads index and classic index", "src/lib.rs search"), ("listing entry points", "src/lib.rs get_categories/get_tags/get_orders/tag_suggestion")],
 [("SHARED_INDEX", "the loaded n-gram index and its products", "src/lib.rs"), ("SHARED_CLASSIC_INDEX", "the loaded categories, tags and sort orders", "src/lib.rs")],
 ["initialize", "search", "get_categories", "get_tags", "get_orders", "tag_suggestion"])

prop("C02", "A failed load changes nothing",
 "If loading a catalogue file fails, for whatever reason and however far it got, the previously loaded catalogue keeps answering every query exactly as before; if none was loaded, the engine still behaves as empty. "
 "A good file loaded afterwards works as if the failed attempts had never happened.",
 ["fault_sequences", "crash_points", "schedules"],
 "every sequence of failed and successful loads, every way and place in which the file is cut or damaged, and every interleaving with concurrent queries",
 "no test loads a damaged file or calls the loading entry point; the property concerns state after a failure at an arbitrary point inside the load",
 ["src/lib.rs", "src/serialize/all_indexes.rs", "src/serialize/nodes.rs", "src/classic_indexes/mod.rs"],
 [("the whole file is decoded before anything is installed", "src/lib.rs initialize"), ("decoders return nothing on malformed input", "src/serialize")],
 [("SHARED_INDEX, SHARED_CLASSIC_INDEX", "what queries answer from", "src/lib.rs")],
 ["initialize", "search", "get_categories", "get_tags", "get_orders", "tag_suggestion"])

prop("C03", "A catalogue file cut short is never accepted",
 "A catalogue file of which only a strict prefix arrived or was written (interrupted download, crash during the write, full disk) is always rejected by the decoder with its failure result, at whichever byte it was cut. "
 "It is never accepted as a catalogue, never decoded to wrong values, and rejecting it never crashes.",
 ["crash_points", "inputs"],
 "every catalogue and every byte position at which the stream or the writer can stop",
 "the tests only decode complete buffers; acceptance depends on the exact byte at which the file ends",
 ["src/serialize/primitives.rs", "src/serialize/collections.rs", "src/serialize/sequential_array.rs", "src/serialize/nodes.rs", "src/serialize/all_indexes.rs", "src/data/container.rs", "src/data/product.rs", "src/data/vendor.rs", "src/classic_indexes"],
 [("length prefixes and the variable-length integer's continuation bit", "src/serialize/primitives.rs"), ("every decoder propagates the failure result", "src/serialize, src/data, src/classic_indexes")],
 None, ["deserialize_all", "initialize"])

prop("C04", "A damaged catalogue file never harms the process",
 "Whatever storage or transfer damage a catalogue file suffers (flipped or overwritten bytes, blocks zeroed, filled, dropped, repeated or swapped, another file's data spliced in), decoding it ends promptly, without a crash, stack exhaustion or a memory demand out of proportion to the file's size, either in the failure result or in a catalogue. "
 "A catalogue that was accepted can be listed, filtered, sorted and searched without any call crashing.",
 ["fault_sequences", "inputs"],
 "every catalogue file and every sequence of storage faults applied to it, followed by any sequence of queries when it is accepted",
 "the tests decode only undamaged buffers; each fault kind reaches a different decoder branch and most need several queries after acceptance to show",
 ["src/serialize/collections.rs", "src/serialize/primitives.rs", "src/serialize/nodes.rs", "src/serialize/sequential_array.rs", "src/data/container.rs", "src/data/features.rs", "src/data/product.rs", "src/classic_indexes/categorical.rs", "src/classic_indexes/tag.rs", "src/classic_indexes/order.rs", "src/ngram/result_ranker.rs"],
 [("bounds checks on lengths, ids and references while decoding", "src/serialize, src/data/product.rs"), ("ranking and sorting tolerate any decoded number", "src/ngram/result_ranker.rs")],
 None, ["deserialize_all", "initialize", "search", "next_product"])

prop("C05", "A loaded catalogue is what the indexer built",
 "Loading a file that the indexer wrote yields a catalogue equal to the one the indexer held in memory: the same products with the same fields (descriptions may be shortened to a prefix), features, tags, categories, options, sort positions and n-gram data, and the same search results with the same confidences for every query. "
 "This holds for every catalogue and n-gram length, whichever random hash seeds the writing and the reading process drew, and when several loads run at once.",
 ["inputs", "configurations", "schedules"],
 "every catalogue, every n-gram length, every pair of writer and reader hash seeds, every interleaving of concurrent loads sharing the allocators",
 "one test round-trips one fixed catalogue with one n-gram length, single-threaded and under whatever hash seed that run drew, and compares with the code's own equality only",
 ["src/serialize", "src/data/container.rs", "src/data/product.rs", "src/data/vendor.rs", "src/data/features.rs", "src/classic_indexes", "src/ngram/index.rs"],
 [("serialize_all and deserialize_all", "src/serialize/all_indexes.rs"), ("delta-coded product id lists", "src/serialize/sequential_array.rs"), ("ids implied by position", "src/data/vendor.rs, src/data/product.rs")],
 None, ["serialize_all", "deserialize_all", "GramIndex::search"])

prop("C06", "No call blocks forever or disables the engine",
 "Every call made by a caller or re-entered from a host callback (a property getter, a listener) finishes within a bounded number of steps: there is no deadlock between callers and none of a caller with itself. "
 "After any call has failed (a damaged file, an unknown sort order, a malformed or throwing filter description, selection items from another catalogue), later valid calls from every caller still succeed.",
 ["schedules", "fault_sequences", "histories"],
 "every interleaving of calls from several threads, every re-entrant call from a host callback, and every sequence of failing calls followed by valid ones",
 "the tests never lock the shared state from two places, never fail a call and never re-enter; a poisoned or doubly taken lock shows only in a later call",
 ["src/lib.rs", "src/js_interactable/feature_filter.rs", "src/js_interactable/tag_handler.rs", "src/js_interactable/category_handler.rs"],
 [("locks are taken after user code has run and in one order", "src/lib.rs search/initialize"), ("no failure unwinds while a shared lock is held", "src/lib.rs search")],
 [("SHARED_INDEX, SHARED_CLASSIC_INDEX", "mutexes shared by all callers", "src/lib.rs")],
 ["initialize", "search", "get_categories", "get_tags", "get_orders", "tag_suggestion", "toggle"])

prop("C07", "Handles keep describing the catalogue they came from",
 "Category and tag handlers, their iterators, options, tags and the product lists returned by searches keep returning, completely and unchanged, the data of the catalogue they were obtained from, no matter how many other catalogues are loaded, fail to load or are built before they are used. "
 "A product list already returned yields each of its products exactly once, in order, with that catalogue's fields.",
 ["histories", "schedules"],
 "every history of loads, failed loads and builds between obtaining a handle and using it, and every interleaving of those with its use",
 "the tests never create a handle and never load twice; a violation needs a reload between obtaining and using",
 ["src/js_interactable/product_producer.rs", "src/js_interactable/category_handler.rs", "src/js_interactable/tag_handler.rs", "src/data/container.rs", "src/lib.rs"],
 [("handles hold their own reference to the catalogue", "src/js_interactable"), ("allocators never free or move what they handed out", "src/data/container.rs SuperAlloc, src/lib.rs NODE_ARENA")],
 None, ["ProductProducer::next_product", "JsProduct", "CategoryIter", "CategoryOptionIter", "TagIter", "JSTag"])

prop("C08", "Filters select exactly the matching products",
 "A search with active category options, active tags and feature filters returns exactly those products of the same search without filters that carry every active option and every active tag and satisfy every feature filter (inclusive from/to bounds, either of which may be missing, or exact equality with the value the product shows), each once and in the same relative order. "
 "This holds after any history of switching selections on and off, and a selection made on one handler never affects another.",
 ["histories", "inputs", "schedules"],
 "every history of toggles on any number of handlers, every combination of filters, every hash seed, and every interleaving with other callers' searches and toggles",
 "no test builds a handler or a filter or performs a filtered search",
 ["src/lib.rs", "src/js_interactable/category_handler.rs", "src/js_interactable/tag_handler.rs", "src/js_interactable/feature_filter.rs", "src/classic_indexes/categorical.rs", "src/classic_indexes/tag.rs", "src/data/features.rs"],
 [("handler validity checks", "src/js_interactable/category_handler.rs is_valid, tag_handler.rs is_valid"), ("feature filter parsing and application", "src/js_interactable/feature_filter.rs")],
 None, ["search", "CategoryHandler::toggle", "TagHandler::toggle"])

prop("C09", "The same search gives the same answer every time",
 "On one loaded catalogue file, a given query with given filters and order returns the same products in the same sequence every time it is asked: by any thread, in any process that loaded that file whatever hash seeds it drew, and whatever other searches, toggles, failed calls or loads of other catalogues happened in between. "
 "The unsorted sequence is by non-increasing confidence and contains no product twice.",
 ["configurations", "histories", "schedules"],
 "every hash seed drawn by every loading process, every history of other calls in between, every interleaving with other threads",
 "no test compares two searches; the dependence on hash seeds and on earlier calls is invisible in a single run",
 ["src/ngram/index.rs", "src/ngram/result_ranker.rs", "src/lib.rs"],
 [("confidence accumulation and ranking", "src/ngram/result_ranker.rs"), ("search keeps no state between calls", "src/ngram/index.rs, src/lib.rs")],
 None, ["search", "GramIndex::search"])

prop("C10", "Requested sort orders are honoured",
 "A search with a sort order returns the same set of products as without it, arranged alphabetically by title, or by non-decreasing or non-increasing price, as the order's name says; every order listed for a loaded catalogue is accepted and covers every product. "
 "An order that is not listed yields no result and has no other effect, whatever happened before and whichever numbering of products the build drew.",
 ["configurations", "histories", "inputs"],
 "every catalogue, every product numbering drawn by the random hash seeds of the build, every history of searches and reloads before",
 "no test looks at a sort order's content; the numbering changes on every build",
 ["src/classic_indexes/order.rs", "src/data/raw_parser.rs", "src/lib.rs"],
 [("sort positions computed at build time", "src/classic_indexes/order.rs add_custom_cmp"), ("search sorts by stored position", "src/lib.rs search")],
 None, ["search", "get_orders"])

prop("C11", "Listeners hear each change exactly once",
 "Whenever a category option or tag is switched, every listener registered on that handler for that very item and every general listener is called exactly once with the item's new state, and no other listener is called, even when some listeners throw or call back into the engine. "
 "A function registered several times is that many listeners, and removing it once removes one of them. A listener that was removed is not called again; removing one does not silence any other.",
 ["histories", "fault_sequences"],
 "every history of registering, removing and switching on several handlers, and every pattern of listeners that throw or re-enter",
 "no test registers a listener; missed or double calls need a throwing listener or a particular registration history",
 ["src/js_interactable/category_handler.rs", "src/js_interactable/tag_handler.rs"],
 [("toggle notifies specific and general listeners", "category_handler.rs toggle, tag_handler.rs toggle"), ("listener removal", "remove_option_listener, remove_tag_listener")],
 [("general_observers, option_observers, tag_observers", "registered listeners", "src/js_interactable")],
 ["toggle", "add_general_observer", "add_option_lister", "add_tag_lister", "remove_option_listener", "remove_tag_listener"])

prop("C12", "A selection's state is the parity of its switches",
 "On each handler, an option or tag reads as selected exactly when it was switched an odd number of times on that handler, independently of every other item and handler, of listeners that throw, re-enter or are added and removed, and of catalogues being loaded, failing to load or being built meanwhile. "
 "A switch that the host rejected because the handler was busy (re-entered) changes nothing.",
 ["histories", "fault_sequences", "schedules"],
 "every history of switches on several handlers, with listener failures, re-entrant calls and reloads in between",
 "no test switches a selection",
 ["src/js_interactable/category_handler.rs", "src/js_interactable/tag_handler.rs"],
 [("active sets keyed by item", "CategoryHandler::toggle/get_status, TagHandler::toggle/get_status")],
 [("active", "currently selected items", "src/js_interactable")],
 ["toggle", "get_status"])

prop("C13", "Listings show every category, option and tag once",
 "For a loaded catalogue, iterating the categories, the options of each category and the tags yields each one that occurs in the catalogue's products exactly once, with its name, and then ends; the sort-order listing names exactly the catalogue's orders. "
 "Each listed option or tag, switched on alone, selects exactly the products that carry it, and iterators advanced in any interleaving do not disturb one another.",
 ["histories", "configurations", "schedules"],
 "every catalogue, hash seed and interleaving of several iterators, toggles and reloads",
 "no test iterates a handler; the order and grouping depend on hash seeds",
 ["src/js_interactable/category_handler.rs", "src/js_interactable/tag_handler.rs", "src/classic_indexes/categorical.rs", "src/classic_indexes/tag.rs", "src/classic_indexes/order.rs"],
 [("iterators over the handler's catalogue", "CategoryIter, CategoryOptionIter, TagIter"), ("grouping of products by option and tag", "CategoryIndex::index, TagIndex::index")],
 None, ["CategoryIter::next_item", "CategoryOptionIter::next_item", "TagIter::next_tag", "get_orders"])

prop("C14", "Rebuilding a catalogue never mixes up its products",
 "Building an index from the same catalogue data again, with products arriving in whatever order the build's random hash seeds produce, yields an equivalent index: each product shows its own title, identifier, description (possibly shortened to a prefix), price and first image (none or empty when it has none), and each tag, option and sort order covers the same products. "
 "No product ever shows another product's data.",
 ["configurations", "inputs", "histories"],
 "every catalogue and every order in which the build's hash seeds hand the products over, including catalogues where some products lack images, tags or options",
 "the only catalogue in the tests is processed once, in one random order, and no per-product value is ever compared with the input",
 ["src/data/raw_parser.rs", "src/data/features.rs", "src/data/vendor.rs", "src/lib.rs", "src/classic_indexes"],
 [("per-product features stored by position", "src/data/raw_parser.rs optimize, src/data/features.rs"), ("products numbered by arrival", "src/data/raw_parser.rs optimize")],
 None, ["index", "index_and_serialize", "JsProduct", "get_tags", "get_categories"])

prop("C15", "The value encoding survives interruption at any byte",
 "Any sequence of values written back to back decodes to the same sequence, consuming exactly the bytes each value was written with. "
 "If the writer or the transfer stops at any byte, the reader gets exactly the values completed before that byte and then the failure result, never a different value; and a writer interrupted by a failing sink has emitted a prefix of the full encoding and writes the full encoding when retried.",
 ["crash_points", "inputs"],
 "every sequence of values of every encodable type and every byte at which the sink fails or the stream ends",
 "tests round-trip a handful of isolated values in complete buffers; stream framing and interruption are never exercised",
 ["src/serialize/primitives.rs", "src/serialize/collections.rs", "src/serialize/sequential_array.rs", "src/serialize/traits.rs"],
 [("self-delimiting encodings", "src/serialize/primitives.rs, src/serialize/collections.rs"), ("the sink is a caller-supplied callback", "Serializable::serialize")],
 None, ["Serializable::serialize", "Deserializable::deserialize", "sequential_array"])

prop("C16", "Concurrent builds and loads do not interfere",
 "Catalogues built and loaded at the same time by several threads, sharing the same memory allocators, each come out exactly as if they had been built or loaded alone: a file built concurrently loads into precisely its own catalogue, and references handed out earlier stay valid and unchanged. "
 "No build or load blocks another forever, whatever the interleaving.",
 ["schedules"],
 "every interleaving of builds, loads and uses of earlier results on shared allocators",
 "the tests share allocators between test threads only by accident and never compare the outcome with an isolated build",
 ["src/data/container.rs", "src/data/raw_parser.rs", "src/data/vendor.rs", "src/lib.rs", "src/ngram/indexer.rs", "src/serialize/nodes.rs"],
 [("arenas behind a lock hand out distinct places", "src/data/container.rs SuperAlloc"), ("vendor and node arenas", "src/data/vendor.rs, src/lib.rs NODE_ARENA")],
 [("SUPER_ARENA, NODE_ARENA", "process-wide allocators", "src/lib.rs")],
 ["index", "index_and_serialize", "initialize", "deserialize_all"])

prop("C17", "The command-line indexer never reports a false success",
 "When the command-line indexer exits successfully, its output file holds exactly one complete index of the whole input catalogue, even if reads and writes were short, interrupted and resumed. "
 "If any open, read or write fails for good (I/O error, full disk, missing input) or the input is cut short, it reports failure; and if it is killed at any instant, the output file is missing, empty, unchanged, complete or rejected on loading, never accepted as a different catalogue.",
 ["fault_sequences", "crash_points"],
 "every sequence of short, interrupted and failing file operations and every instant at which the process dies",
 "the program is never run by a test, and no test injects an I/O fault",
 ["src/main.rs", "src/lib.rs", "src/serialize"],
 [("whole-file read, whole-file write, errors propagated", "src/main.rs main")],
 None, ["main", "out.test"])

prop("C23", "A damaged catalogue document never harms the indexer",
 "Whatever damage a catalogue document has suffered (cut at any byte, bytes flipped or overwritten, blocks lost, repeated or swapped, strings, prices or whole entries replaced, doubled or lost, brackets nested beyond reason), indexing it ends promptly, without crash, stack exhaustion or disproportionate memory: either it is refused, or the outcome is a complete index of exactly what the damaged document describes, which loads and can be listed, filtered, sorted and searched. "
 "A text that is no catalogue document any more (no JSON, such as any strict prefix, or with a field missing, or with a price that is no number) is always refused; and the catalogue that was loaded goes on answering as before, and intact documents can still be indexed.",
 ["fault_sequences", "inputs", "histories"],
 "every damage to every catalogue document, and every history of indexing damaged documents before and after intact ones in one process",
 "the tests index one intact document and never a damaged one",
 ["src/lib.rs", "src/data/raw_parser.rs", "src/classic_indexes/order.rs"],
 [("strict parsing, errors become a refusal", "src/lib.rs index, index_and_serialize_with_n"), ("prices as numbers", "src/data/raw_parser.rs to_intermediate")],
 None, ["index", "initialize", "search"])

prop("C18", "Misspelt queries still find their products",
 "A query that differs from a product's text by a limited number of wrong, missing or extra characters per five-character window still finds that product, ranked by how likely the text is.",
 ["inputs"],
 "every catalogue and query",
 "only one hard-coded query is ever asked, and its answer is not checked",
 ["src/ngram/index.rs", "src/ngram/indexer.rs"],
 [("bounded-edit search in the n-gram tree", "src/ngram/index.rs recursive_search")], None, ["GramIndex::search"])
prop("C19", "Every well-formed catalogue document can be indexed",
 "Every well-formed JSON catalogue, including one whose strings contain escape sequences, is indexed rather than refused.",
 ["inputs"], "every JSON document of the catalogue's shape",
 "the tests parse one document without escape sequences",
 ["src/data/raw_parser.rs", "src/lib.rs"], [("borrowed-string deserialisation", "src/data/raw_parser.rs RawProduct")], None, ["index"])
prop("C20", "Stored descriptions are a readable prefix",
 "A stored description is a prefix of the original, not much longer than one hundred bytes, cut between words where possible and never inside a character.",
 ["inputs"], "every description",
 "the test prints five shortened strings without checking them",
 ["src/serialize/collections.rs"], [("limit_string_len", "src/serialize/collections.rs")], None, ["serialize_string_with_limit"])
prop("C21", "Tag suggestions resemble a query word",
 "A suggested tag shares more than four fifths of its characters, position by position, with the query word it is suggested for, and no other tag does better.",
 ["inputs"], "every query and tag set",
 "no test asks for a suggestion",
 ["src/lib.rs"], [("overlap score", "src/lib.rs tag_suggestion")], None, ["tag_suggestion"])
prop("C22", "A product's numeric identifier is its trailing number",
 "The numeric identifier of a product is the number formed by the trailing digits of its identifier.",
 ["inputs"], "every product identifier",
 "no test reads it", ["src/data/product.rs"], [("get_id", "src/data/product.rs")], None, ["Product::get_id"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
