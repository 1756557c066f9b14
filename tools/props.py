prop("C01", "Cached knowledge is never trusted across a cancelled or failed operation",
     "Whenever a flash write or erase is in progress the cache is either marked untrustworthy or empty, so an operation that is dropped or fails there cannot leave a stale cache behind that looks valid. "
     "Every later operation on the same instance that finds the mark discards everything the cache remembers before using any of it, and the mark is removed only when the cache is known to agree with the flash.",
     ["crash_points", "fault_sequences", "histories"],
     "every public storage operation, every flash call in it as the point where the future is dropped or the driver fails, every following operation",
     "The tests cancel at a few sampled points of sampled histories and only with some caches; the property needs every await of every operation crossed with every successor operation.",
     ["src/lib.rs", "src/map.rs", "src/queue/mod.rs", "src/item.rs", "src/cache/mod.rs"],
     [("dirty tracking and invalidation", "src/cache/mod.rs"), ("dirty test at the start of every operation", "src/map.rs, src/queue/mod.rs")],
     [("dirty mark", "set while cache and flash may disagree", "src/cache/mod.rs DirtTracker")],
     COMMON + "Iterator types are handled by induction over their constructor.", "typestate over an interprocedural abstract interpretation of MIR")
prop("C03", "A flash error always ends the operation and reaches the caller",
     "If any flash read, write or erase that an operation performs returns an error, the operation performs no further flash access and its own result is an error carrying exactly the error the driver returned. "
     "In particular a flash error is never turned into success, into \"not found\", or into a corruption report, and never triggers a repair.",
     ["fault_sequences", "inputs"],
     "every public storage operation, every flash call in it failing, on every control-flow path",
     "Tests inject errors at a few points of a few histories; the property needs every flash call site on every path, including the repair and migration paths.",
     ["src/lib.rs", "src/map.rs", "src/queue/mod.rs", "src/queue/buffered.rs", "src/item.rs"],
     [("repair wrapper that decides which errors are retried", "src/lib.rs run_with_auto_repair!"), ("flash calls of items and page markers", "src/item.rs, src/lib.rs")],
     [], COMMON, "error-value flow by interprocedural abstract interpretation of MIR")
prop("C02", "The cache always agrees with the flash while it is trusted",
     "Whenever an operation marks the cache as trustworthy, or returns with it so marked, every change it made to the flash (a page erased, a page opened or closed, an item written or erased) has been reported to the cache with the same page, address, length and key, and nothing was reported that did not happen. "
     "Without a change, a page state enters the cache only directly after both markers of that very page were read, and nothing cached is used while a change is still unreported.",
     ["histories", "inputs"],
     "every public storage operation and every path through it on which flash accesses succeed, with any generic cache",
     "Cache tests compare a cached and an uncached run on sampled histories, with a few caches; a missed or wrong notification shows only in particular page layouts and histories.",
     ["src/lib.rs", "src/map.rs", "src/item.rs", "src/cache/mod.rs"],
     [("cache notifications next to each flash write", "src/item.rs write_raw, erase_data; src/lib.rs open_page, close_page, partial_close_page"), ("key locations", "src/map.rs")],
     [("page states, item pointers, key pointers", "what the cache believes about the flash", "src/cache/")],
     COMMON + "Address and content terms identify page markers and item headers. How the individual cache types store what they are told is not covered here.",
     "paired-event typestate by interprocedural abstract interpretation of MIR")
prop("C08", "Corruption is repaired and the operation retried before it is reported",
     "An operation reports the corruption error only if, after corruption was first noticed, it dropped everything cached, ran a repair and ran again, and corruption was noticed once more. "
     "A page whose two state markers are found in the impossible combination during a repair (an interrupted erase) is erased by that repair, that page and no other, before anything else is examined; before corruption is reported the repair has looked at the markers of every page.",
     ["crash_points", "histories"],
     "every public storage operation, every place where corruption can be noticed, every path through repair and retry",
     "Repair runs only after specific interrupted writes or bit flips; tests construct a handful of such images for a few operations.",
     ["src/lib.rs", "src/map.rs", "src/queue/mod.rs"],
     [("repair wrapper", "src/lib.rs run_with_auto_repair!"), ("general repair", "src/lib.rs try_general_repair")],
     [], COMMON + "Assumes no flash error (C03 covers those). Whether the repaired state is as intended is C07 and C10.",
     "typestate over an interprocedural abstract interpretation of MIR")
prop("C13", "Built-in keys and values survive encoding and never reach outside their buffer",
     "No built-in Key or Value implementation panics or accesses a byte outside the buffer it is given, for any value, any buffer length and any buffer content; an encoded length never exceeds the buffer, and a buffer found too short is reported as BufferTooSmall. "
     "Decoding what was just encoded succeeds and yields the same length as encoding (get_len included) and the same value; for arrays of numbers only the length, element width and byte order are covered, for postcard types nothing beyond the bounds.",
     ["inputs"],
     "every implementation of Key and Value in the crate, every value, every buffer length and every buffer content",
     "Round-trip tests try one value and one sufficiently large buffer per type; boundary lengths and hostile contents are not tried.",
     ["src/map.rs", "src/alloc_impl.rs", "src/heapless_impl.rs", "src/heapless_09_impl.rs", "src/arrayvec_impl.rs"],
     [("length-prefixed keys", "src/alloc_impl.rs, src/heapless_impl.rs, src/heapless_09_impl.rs, src/arrayvec_impl.rs"), ("numbers, arrays, options, slices", "src/map.rs")],
     [], "The containers of alloc, heapless and arrayvec are assumed to hold the bytes they are given; nested keys and values are assumed to keep the contract.",
     "bounds and value-flow analysis by abstract interpretation of MIR")
prop("C14", "Damaged bytes are never handed out",
     "Bytes that came from flash reach the caller, or a key or value decoder, only if their checksum was found to match the one stored in the item's header, the header's own length checksum was found to match before, and the bytes were not changed in between. "
     "A decoder for values sees nothing but the verified bytes; a decoder for keys may be given a buffer that begins with them. No item is found, and no data read, by the length of a header that failed its own check.",
     ["inputs", "histories"],
     "every public storage operation, every flash content, every path on which flash accesses succeed",
     "Tests corrupt a few bytes of a few images; the property is about every path from a flash read to a returned slice or decoder call, including caches, migration and iterators.",
     ["src/item.rs", "src/map.rs", "src/queue/mod.rs"],
     [("header and data checks", "src/item.rs read_new, read_item"), ("decoder calls and returned slices", "src/map.rs, src/queue/mod.rs")],
     [], COMMON + "Checksums are opaque: how well they detect damage is not covered.",
     "content-provenance dataflow by interprocedural abstract interpretation of MIR")
prop("C20", "A failed check is repeated on fresh bytes before anything counts as damaged",
     "When the checksum of an item header or of item data does not match what was just read, the operation reads the very same range again before it does anything else with the flash or returns. Only a second mismatch makes the operation treat the item as damaged.",
     ["fault_sequences", "inputs"],
     "every public storage operation, every header and data check, either outcome of each",
     "A passing read disturbance hits one read out of many; tests do not inject wrong data into single reads.",
     ["src/item.rs"],
     [("retry of header and data reads", "src/item.rs read_new, read_item")],
     [], COMMON, "typestate over an interprocedural abstract interpretation of MIR")
prop("C15", "Whatever is written as an item is a well-formed item",
     "Everything written to flash is a page marker, an item header, or the data announced by the header written just before. A header carries the checksum of its own length and the length and checksum of exactly the bytes that then follow it directly and without a gap (the last write word padded), be it a new item or one carried over to another page. "
     "The data is completely written before the flash is used for anything else or the operation succeeds.",
     ["inputs", "histories"],
     "every public storage operation, every item length and content, every word size, every path on which flash accesses succeed",
     "A wrong address, length or checksum can depend on the word size, the length modulo the word, or on an item being copied during a repair; tests sample a few of each.",
     ["src/item.rs", "src/lib.rs", "src/map.rs", "src/queue/mod.rs"],
     [("header and data writes", "src/item.rs ItemHeader::write, Item::write_raw"), ("copy to another page", "src/map.rs")],
     [("item", "header (data checksum, length, length checksum) followed by data", "src/item.rs")],
     COMMON, "typestate and value-flow analysis by interprocedural abstract interpretation of MIR")
prop("C09", "Items are taken out only by marking their own, verified header",
     "An item header is overwritten only to mark the item as removed, only at the address and with the length of an item whose checksum was verified last, and only by operations that demand flash that can be written twice. "
     "An entry handed out for later removal remembers the address and length of the very item it was made for.",
     ["inputs", "histories"],
     "every public storage operation and every path through it on which flash accesses succeed",
     "Marking a neighbour or an item that could not be verified needs corruption or a particular page layout; tests look at what remains in a few histories.",
     ["src/item.rs", "src/map.rs", "src/queue/mod.rs"],
     [("removal", "src/item.rs erase_data"), ("removal from map, pop, iterator entry", "src/map.rs, src/queue/mod.rs")],
     [], COMMON, "typestate and value-flow analysis by interprocedural abstract interpretation of MIR")
prop("C17", "A configuration is accepted exactly when it can work",
     "A map or queue configuration is created only for a range that starts and ends on a page boundary and has enough pages (two for a map, one for a queue), on a flash whose pages hold the two markers, an item header and a word, and whose word is at most 32 bytes. "
     "It is refused otherwise, never with an arithmetic overflow, and only with an error naming a condition that really is violated; the configuration keeps exactly the range given.",
     ["inputs"],
     "every address range and every combination of erase and word size",
     "Tests build a few valid configurations; the conditions are arithmetic over all ranges and geometries.",
     ["src/map.rs", "src/queue/mod.rs"],
     [("constructors", "src/map.rs MapConfig, src/queue/mod.rs QueueConfig")],
     [], "Trusts the engine's models of core; erase and word size non-zero and small enough for u32.",
     "path-sensitive abstract interpretation of MIR with linear-arithmetic entailment")
prop("C12", "Moving items between the RAM buffer and flash neither loses nor duplicates them",
     "Draining takes an item out of the RAM buffer only directly after a push to flash of an item of its length succeeded, exactly one for each push, with no other flash access in between; with the shared buffer only if nothing was evicted since the item was copied out. Popping takes at most one item from RAM, the one it returns, and only after flash was found empty; peeking takes none, and every failure leaves what was buffered where it was. "
     "The operations report emptiness or completion only if the buffer really was seen empty, a refused enqueue changes nothing, the refusing policy never evicts, and an accepted enqueue into the shared buffer wakes the drain task.",
     ["fault_sequences", "schedules", "histories"],
     "every operation of BufferedQueue and SharedRamRing, every outcome of the flash queue's operations, every change of the shared buffer between two locked sections",
     "An interrupt enqueueing while a drain is in progress, a cancelled drain, or a failing push are points in time the tests do not produce.",
     ["src/queue/buffered.rs"],
     [("RAM ring", "src/queue/buffered.rs RamRing"), ("drain, pop, peek", "src/queue/buffered.rs BufferedQueue, SharedRamRing")],
     [("items and bytes buffered", "what the RAM buffer holds", "src/queue/buffered.rs")],
     "Decides the stated rule for every control-flow path of the operations with the flash queue's operations as opaque calls. That the bytes copied out of the ring are those put in is not covered.",
     "paired-event typestate by interprocedural abstract interpretation of MIR, with rely conditions at lock acquisition")

prop("C04", "What is stored is written once and as given; what is popped is what is taken out",
     "When a push or a store reports success, exactly one new item was written by it, its checksum was taken over exactly the caller's bytes (for a map: the encoding of the caller's key directly followed by that of the caller's value), and no page was erased after that. "
     "When a pop returns data, exactly one item was marked as erased, and the data returned is all of that item's data and nothing else. "
     "When a pop returns nothing, and in every peek or iteration step, no item is marked as erased.",
     ["inputs", "histories"],
     "push, pop, peek and iteration of the queue, popping an entry, both stores of the map; every path on which flash accesses succeed, including repair and retry, page changes and migration",
     "Tests push and pop sampled data in sampled histories; that nothing else is written or taken out must hold on every path, in particular after a page change, a migration or a repair in the middle of the operation.",
     ["src/queue/mod.rs", "src/map.rs", "src/item.rs"],
     [("push", "src/queue/mod.rs push_inner"), ("store", "src/map.rs store_item_inner"), ("pop", "src/queue/mod.rs QueueIteratorEntry::pop")],
     [], COMMON + "That the bytes following a header are those its checksum was taken from is C15; that the erased item is the one found is C09. Whether the right page is used, and the order in which items come back, is not covered.",
     "content-provenance dataflow and counting typestate by interprocedural abstract interpretation of MIR")
prop("C24", "A key is fetched and removed by its own items only",
     "A fetch that returns a value decoded it from the item that was the last one found to have the key asked for, or from the item at the location remembered for that key, and from exactly the bytes behind the key up to the end of that item; it returns nothing only if no item of the key was found. "
     "Removing a key marks exactly those items it examines whose key equals the one asked for, and removing everything marks every item it examines. "
     "Once an item of the key (for removals: any item) was found on a page, the search goes on with the item directly behind it, up to the end of the page.",
     ["inputs", "histories"],
     "fetch_item, remove_item and remove_all_items; every path on which flash accesses succeed, any key and value type",
     "Tests fetch and remove keys in sampled layouts; which of several copies of a key is used or left behind depends on layout and history.",
     ["src/map.rs", "src/item.rs"],
     [("search for the newest item", "src/map.rs fetch_item_with_location"), ("removal", "src/map.rs remove_item_inner")],
     [], COMMON + "Which pages are searched, and in which order, is not covered. After corruption was noticed only the comparison rules apply to a removal.",
     "comparison-provenance dataflow and typestate by interprocedural abstract interpretation of MIR")
prop("C11", "Looking does not change anything",
     "Fetching a key, iterating over a map or a queue, peeking, asking for the free space, asking what fits and printing write nothing to flash, unless corruption was noticed and is being repaired. "
     "They erase nothing either, except that peeking and iterating over a queue may erase whole single pages.",
     ["inputs", "histories"],
     "fetch_item, fetch_all_items, peek, iter, find_max_fit, space_left, print_items and both iterators; every path on which flash accesses succeed, any key, value and cache type",
     "Tests compare the flash before and after a look in few layouts; a helper shared with the writing operations changes something only in particular ones.",
     ["src/map.rs", "src/queue/mod.rs", "src/lib.rs", "src/item.rs"],
     [("map lookup", "src/map.rs fetch_item_with_location"), ("queue iteration", "src/queue/mod.rs QueueIterator")],
     [], COMMON + "Which pages peeking and iterating erase is C10.",
     "effect analysis by interprocedural abstract interpretation of MIR")
prop("C06", "Pages are opened, filled and closed in order",
     "The start marker of a page is written only if the page was found or made open before, its end marker only if it was found or made partially open, and in both cases nothing changed it in between. "
     "The page following the one in use is started only after that one was closed or erased, so that an interruption leaves at most one of the two partially open, and no item goes to the beginning of a page that was not started.",
     ["crash_points", "histories"],
     "push, pop and iteration of the queue, stores and removals of the map; every path on which flash accesses succeed, including repair and migration, with any cache",
     "The order of marker writes matters only when power fails between two of them, and which markers are written depends on layout and history.",
     ["src/lib.rs", "src/map.rs", "src/queue/mod.rs"],
     [("opening and closing pages", "src/lib.rs open_page, partial_close_page, close_page"), ("page changes", "src/map.rs store_item_inner, src/queue/mod.rs push_inner")],
     [("page state", "open, partially open or closed, by the two markers", "src/lib.rs PageState")],
     COMMON + "What the cache answers about a page is taken for true (C02). That all pages together form a valid ring is not covered.",
     "typestate over an interprocedural abstract interpretation of MIR")
