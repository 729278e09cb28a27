#!/usr/bin/env python3
"""Writes properties.jsonl."""
import json, os
S, D, A = "crates/crabslab/src/", "crates/crabslab-derive/src/lib.rs", "crates/craballoc/src/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))

p("C01", "A value written to a slab is read back bit for bit",
  "For every supported type (integers, floats, bool, math types, ids, arrays of ids, options, fixed size arrays, tuples, derived structs and enums, and nestings of them), every value, and every index at which it fits, writing the value and reading it back at that index gives the same value bit for bit, through every way of writing and reading. Writing one value or a slice of values returns the index just after what was written.",
  ["inputs"], "all supported types and nestings, all values including NaN payloads and extreme integers, all indices, all slab kinds and all read/write entry points",
  "The tests write a dozen hand-picked values at small indices; value bits, nestings and indices are unbounded.",
  [S+"slab.rs", S+"impl_slab_item/primitives.rs", S+"impl_slab_item/glam.rs", S+"impl_slab_item/mod.rs", S+"impl_slab_item/tuples.rs", S+"id.rs", S+"array.rs", D],
  [("per type read_slab/write_slab pairs", S+"impl_slab_item/"), ("Slab::read / write_indexed / write_indexed_slice / read_vec", S+"slab.rs")],
  observe=["Slab::read", "Slab::read_unchecked", "Slab::read_vec", "Slab::read_into_if_some"])
p("C02", "Values in a slab do not disturb each other",
  "Writing a value changes no word of the slab outside the words that the value occupies. Reading a value depends on nothing but its own words: not on its neighbours and not on where it is in the slab. Hence any number of values of any types placed side by side, written and rewritten in any order, all keep their latest value.",
  ["inputs", "histories"], "all placements of values of mixed types in one slab and all orders of writing and rewriting them",
  "Tests only place two or three values and never compare the words around them.",
  [S+"slab.rs", S+"impl_slab_item/primitives.rs", S+"impl_slab_item/mod.rs", S+"impl_slab_item/glam.rs", D],
  [("index arithmetic of composite types", S+"impl_slab_item/mod.rs"), ("index arithmetic of derived types", D)],
  observe=["all words of the slab after every write"])
p("C03", "The words of a value follow the documented, gap-free layout",
  "A type always takes the same number of words, which it declares: a struct, tuple or fixed size array takes the sum of its parts, an option one more than its content, an enum one more than its largest variant. The parts lie in declaration order without gaps, after the presence word (1 or 0) or the variant number (counted from 0 in declaration order). A 32-bit scalar is its raw bits, a narrower integer is zero or sign extended, a bool is 1 or 0, and a wider scalar is its words from low to high.",
  ["inputs"], "all supported types, nestings and values",
  "The layout is the contract between CPU and shader, so a change that is consistent for reads and writes passes every round trip test; only a few sizes are asserted today.",
  [S+"impl_slab_item/primitives.rs", S+"impl_slab_item/mod.rs", S+"impl_slab_item/glam.rs", S+"array.rs", S+"id.rs", D],
  [("SLAB_SIZE and write_slab of every type", S+"impl_slab_item/"), ("derived SLAB_SIZE and variant numbers", D)],
  observe=["the words of the slab", "SlabItem::SLAB_SIZE"])
p("C04", "Any words can be read as any type, and the result is stable",
  "Reading arbitrary words (uninitialised, or written by a shader) as any supported type never panics and never changes the slab. A variant number that the enum does not have reads as the enum's default, a presence word other than 1 reads as None, a bool word other than 1 reads as false, and a narrow integer takes the low bits of its word. Writing what was read and reading it again gives the same value.",
  ["inputs"], "all supported types and all contents of their words",
  "Tests only read words that were written as the same type.",
  [S+"impl_slab_item/mod.rs", S+"impl_slab_item/primitives.rs", D],
  [("fall back variant of derived enums", D), ("presence word of Option", S+"impl_slab_item/mod.rs"), ("bool", S+"impl_slab_item/primitives.rs")],
  observe=["Slab::read"])
p("C05", "Reads and writes out of bounds are harmless",
  "A slab contains an id exactly if all words of the value lie within the slab. Reading an id that is not contained (such as the null id) gives the type's default, also for each element of an array; writing a value or a slice that does not fit changes nothing and returns the index it was given, without panicking. Writing data to an array writes exactly the array's elements if there is enough data and they fit, and nothing otherwise.",
  ["inputs"], "all types, slab lengths, indices (up to the largest), array lengths and data lengths",
  "The single test of containment uses one slab of three words; writes that do not fit are not tested.",
  [S+"slab.rs", S+"impl_slab_item/glam.rs"],
  [("Slab::contains, Slab::read", S+"slab.rs"), ("bounds check of write_indexed and write_indexed_slice", S+"slab.rs"), ("Slab::write_array", S+"slab.rs")],
  observe=["all words of the slab", "returned indices"])
p("C06", "A growable slab hands out fresh, zeroed, disjoint space and keeps all data",
  "In every history of allocating, appending and writing on a growable slab (also one implemented by a user), each allocation starts where the slab ended before, the slab's length grows by exactly the words allocated, and newly allocated words are zero. No operation changes words it does not write, reserved capacity is at least what was asked for and never less than the length, and an empty array is null and takes no space. The wrapper around a growable slab behaves exactly like the slab it wraps.",
  ["histories", "inputs"], "all sequences of operations with all types and lengths, on all slab kinds",
  "Tests append a handful of values to an initially empty vector.",
  [S+"slab.rs"],
  [("GrowableSlab::allocate, allocate_array, append, append_array, maybe_expand_to_fit", S+"slab.rs"), ("GrowableSlab for Vec<u32> and CpuSlab", S+"slab.rs")],
  state=[("length and capacity of the slab", "end of the allocated space, and how far it can grow in place", S+"slab.rs")],
  observe=["all words of the slab, its length and capacity after every operation"])
p("C07", "Ids and arrays are faithful handles to positions",
  "An id behaves as its number in conversions, ordering, hashing and addition, over the whole 32-bit range, and only the largest number is the null id. Element i of an array is at its start plus i times the element size, and is null from the length on; iteration gives exactly these elements in order, and the array's view as words, its slice of a slab, containment of positions and the union of two arrays of words cover exactly the expected words.",
  ["inputs"], "all indices and lengths within the 32-bit index space, and all element types",
  "Tests use arrays of one or two elements at index 0.",
  [S+"id.rs", S+"array.rs"],
  [("Array::at, iter, into_u32_array, sub_slab, contains_index, union", S+"array.rs"), ("Id conversions and operators", S+"id.rs")],
  observe=["returned ids, arrays and slices"])
p("C08", "Every plain data type definition can be derived, and derives correctly",
  "For every struct (named, tuple, unit or generic) and every enum (with unit, tuple and struct variants and a default) made of supported types, with any legal field names, the derive compiles. The derived type round-trips every value, its size is the sum of its fields or one more than its largest variant, its fields lie in declaration order, and unknown variant numbers read as the default. Deriving for a union is rejected.",
  ["programs", "inputs"], "all type definitions (shapes, names, generics, nestings), and all values of them",
  "The quantifier is over programs; the tests derive for about eight fixed definitions.",
  [D, S+"lib.rs"],
  [("derive_from_slab_struct", D), ("derive_from_slab_enum", D)],
  observe=["compilation", "words of the slab", "SlabItem::SLAB_SIZE"])
p("C09", "Derived field offsets address exactly the field",
  "For every struct that derives offsets, the id of the value plus the offset of a field (in either order) is the id of that field: reading it gives the field, and writing it changes this field and nothing else. Offsets can be chained through nested structs, the derived size of a field is the size of its type, and an offset can only be added to an id of the type it belongs to. Deriving offsets for an enum is rejected.",
  ["programs", "inputs"], "all struct definitions, all fields, all nestings and all values",
  "The quantifier is over programs; the tests use the offsets of one two-field struct.",
  [D, S+"offset.rs"],
  [("generation of the offset and size constants", D), ("Add of Offset and Id", S+"offset.rs")],
  observe=["words of the slab", "trait implementations"])
p("C10", "After a commit the buffer holds the latest value of every live handle",
  "In every history of creating, setting, modifying, locking, cloning, weakly holding, downgrading and dropping values and arrays of any types, and committing, after each commit the buffer holds at the position of every live value and array element the latest value that was set through any of its handles. This holds however often the buffer grew, whatever was dropped in between, and however many updates were queued since the last commit. No such history panics.",
  ["histories", "inputs"], "all histories of operations on an allocator and its values, single-threaded",
  "The tests run two short histories of u32 values.",
  [A+"slab.rs", A+"value.rs", A+"range.rs"],
  [("queueing of updates by Gpu::set and GpuArray::set_item", A+"value.rs"), ("drain_updated_sources and commit", A+"slab.rs"), ("merging of updates", A+"range.rs")],
  state=[("queued updates", "updates of each source not yet in the buffer", A+"value.rs"), ("update queue", "ids of sources with updates", A+"slab.rs")],
  observe=["contents of the committed buffer"])
p("C11", "A commit changes only what was updated, and nothing changes without one",
  "There is no buffer before the first commit, and between commits no operation on values changes the contents of the buffer. A commit changes only words of values and array elements that were updated since the previous commit: all other words, such as results written by the GPU, keep their contents, also when the commit replaces the buffer by a larger one.",
  ["histories", "inputs"], "all histories of operations, with arbitrary writes to the buffer by the GPU in between",
  "Tests never write to the buffer from the outside, and look at no words beside the updated ones.",
  [A+"slab.rs", A+"range.rs", A+"value.rs", A+"runtime.rs"],
  [("commit, recreate_buffer", A+"slab.rs"), ("union of updates", A+"range.rs"), ("buffer_copy", A+"runtime.rs")],
  observe=["contents of the buffer before and after every operation"])
p("C12", "Live allocations never overlap and lie within the committed buffer",
  "At all times the positions of all live values and arrays are disjoint, and the position of a value or array never changes while any handle to it exists. After each commit all of them lie within the committed buffer.",
  ["histories"], "all histories of creating, cloning, dropping and committing values and arrays of all sizes",
  "Tests do not check positions, and recycle only equally sized values.",
  [A+"slab.rs", A+"range.rs"],
  [("allocate, allocate_array, maybe_expand_to_fit", A+"slab.rs"), ("RangeManager::remove and add_range", A+"range.rs")],
  state=[("recycled ranges", "space that can be handed out again", A+"slab.rs"), ("len and capacity", "end of the space handed out, and size of the next buffer", A+"slab.rs")],
  observe=["ids and arrays of the handles", "length of the buffer"])
p("C13", "Space is reclaimed exactly when its last owner is gone, and is reused",
  "The space of a value or array is never handed out again while any owning handle exists, whether it is a clone, an upgraded weak handle or a GPU-only handle, nor before a commit has followed the drop of the last one. After that commit it is available: a request that fits in a contiguous run of reclaimed words, however many dropped neighbours it is made of, is served from reclaimed words and does not enlarge the slab.",
  ["histories"], "all histories of creating, cloning, downgrading, dropping and committing values and arrays of all sizes",
  "One test counts recycled ranges for equally sized values; reuse itself and mixed sizes are not tested.",
  [A+"slab.rs", A+"range.rs", A+"value.rs"],
  [("recycling in drain_updated_sources, defrag", A+"slab.rs"), ("RangeManager", A+"range.rs"), ("notification on drop", A+"value.rs")],
  observe=["ids and arrays of new values", "length of the buffer"])
p("C14", "Buffers tell truthfully whether they are current",
  "A buffer returned by the allocator is valid until a later commit replaces the buffer, and invalid from then on. Updating an outdated buffer reports true and makes it the current, valid buffer with the current contents; updating a current one reports false and changes nothing; a buffer is new this commit exactly if the latest commit created it, and later buffers have later creation times. A commit replaces the buffer only if allocations outgrew it, and carries over its contents.",
  ["histories"], "all histories of allocations and commits, and of retaining, cloning and updating buffers",
  "Tests look at two buffers across two commits.",
  [A+"slab.rs"],
  [("SlabBuffer::is_invalid, update_if_invalid, is_new_this_commit", A+"slab.rs"), ("commit, recreate_buffer", A+"slab.rs")],
  state=[("invalidation and invocation counters", "commit at which the buffer was last replaced, and the current commit", A+"slab.rs")],
  observe=["SlabBuffer methods", "contents of buffers"])
p("C15", "All handles to a value share one value and one life",
  "All clones of a value or array, and handles upgraded from weak ones, see and set the same value and have the same id and unique identifier. The count of references is the number of owning handles, a weak handle can be upgraded exactly while owning handles of its kind exist, and keeps nothing alive. Modifying returns what the closure returned, setting an array item returns the previous item, or nothing out of range (which changes nothing), a lock guard sees the current value, and a lock that is only read queues no update.",
  ["histories", "inputs"], "all histories of cloning, downgrading, upgrading, dropping, reading and writing handles",
  "Tests use single handles, and check one reference count.",
  [A+"value.rs"],
  [("Hybrid, HybridArray, WeakHybrid, Gpu, WeakGpu, HybridWriteGuard", A+"value.rs")],
  observe=["return values of the handle methods"])
p("C16", "Pending updates are reported faithfully",
  "Looking at pending updates never loses or applies one: after looking any number of times they are still pending, and the next commit writes them. Every live value or array with a pending update is among the reported identifiers, nothing is reported that has not been created, changed or dropped since the last commit, and right after a commit nothing is pending. Identifiers of different values and arrays differ.",
  ["histories"], "all histories of operations, with queries at any point",
  "Tests query once after one creation.",
  [A+"slab.rs", A+"value.rs"],
  [("get_updated_source_ids, has_queued_updates, drain_updated_sources", A+"slab.rs")],
  observe=["has_queued_updates", "get_updated_source_ids", "notifier_index"])
p("C17", "Concurrent updates are never lost, and nothing panics or deadlocks",
  "When several threads create, set, modify, lock and drop values and arrays, query pending updates and commit at the same time, no thread panics and none blocks forever. Whatever a thread set before it started a commit of its own is in the buffer when that commit returns, unless something newer is; and after all threads are done, one commit leaves the buffer with the latest value of every live handle.",
  ["schedules", "histories"], "all interleavings of all small programs of two to four threads",
  "All tests are single-threaded.",
  [A+"slab.rs", A+"value.rs"],
  [("notifier channel and update queue", A+"slab.rs"), ("commit lock", A+"slab.rs"), ("insert_update_source", A+"slab.rs"), ("locks of Hybrid and Gpu", A+"value.rs")],
  observe=["contents of the buffer after commits"])
p("C18", "Concurrent allocation is disjoint, fits the buffer, and leaks nothing",
  "When several threads create, clone, upgrade and drop values and arrays and commit at the same time, the positions of live values and arrays are disjoint at all times, none is handed out while it has an owner, and each lies within the buffer of a commit that follows. After all handles are dropped and a commit was made, all of the space is available again.",
  ["schedules", "histories"], "all interleavings of all small programs of two to four threads",
  "All tests are single-threaded.",
  [A+"slab.rs", A+"value.rs", A+"range.rs"],
  [("allocate, allocate_array, maybe_expand_to_fit", A+"slab.rs"), ("drop of Gpu and GpuArray", A+"value.rs"), ("recycling in drain_updated_sources", A+"slab.rs")],
  observe=["ids and arrays of the handles", "lengths of buffers", "ids of values created after everything was dropped"])
p("C19", "Buffers can be refreshed while other threads commit",
  "When threads hold and refresh buffers while other threads create values and commit, refreshing reports true exactly if it replaced the buffer by a newer one, a refreshed buffer is never older than any buffer whose commit had returned before, and once commits have stopped one refresh makes every buffer the current one. Creation times never go backwards for any observer.",
  ["schedules", "histories"], "all interleavings of all small programs of two to four threads",
  "All tests are single-threaded.",
  [A+"slab.rs"],
  [("update_if_invalid, recreate_buffer, get_buffer", A+"slab.rs")],
  observe=["SlabBuffer methods", "identity of the underlying buffer"])
p("C20", "Managed ranges are a set, and merged updates act like the originals",
  "A manager of free ranges represents exactly the set of words added and not yet removed, as maximal runs if it was only added to: removing a count of words gives that many contiguous words of the set and takes exactly these out, and gives nothing only if no run is long enough. A manager of updates to words, however they overlap, acts like all of them applied in the order they were added, and its merged updates do not overlap.",
  ["histories", "inputs"], "all sequences of additions and removals of ranges, and all sequences of updates",
  "One test checks that two ranges do not intersect.",
  [A+"range.rs", A+"runtime.rs"],
  [("RangeManager::add_range and remove", A+"range.rs"), ("IsRange for Range and SlabUpdate", A+"range.rs")],
  observe=["the ranges of the manager"])
p("C21", "The runtime is called correctly, and the reference runtime is faithful",
  "Any runtime plugged into an allocator only sees well-formed calls: buffers are created with at least one word, the label and the usages given to the allocator; a copy goes from the previous buffer to a new one at least as large; updates have as many elements as words, do not overlap each other and lie within the buffer; and the runtime is called only by commits, and nothing is written if nothing changed. The CPU runtime does what it is asked, reads exactly the requested range for every kind of range bounds, and leaves the same contents as any other runtime.",
  ["histories", "inputs", "configurations"], "all histories, labels and usages, all runtimes, and all ranges within the buffer",
  "Tests only use the CPU runtime and never read a range.",
  [A+"runtime.rs", A+"slab.rs"],
  [("IsRuntime and its CPU implementation", A+"runtime.rs"), ("commit, recreate_buffer", A+"slab.rs")],
  observe=["calls of a recording runtime"])
p("C22", "Handles and buffers outlive their allocator harmlessly",
  "After the last handle to an allocator is dropped, all operations on its values, arrays, weak handles and buffers still work without panicking: values are still shared, read and set through their handles, out of range stays out of range, weak handles still follow the life of owning ones, and buffers keep their contents, stay as valid as they were, and report that there is nothing to update to.",
  ["histories"], "all histories that drop the allocator at any point",
  "No test drops an allocator before its values.",
  [A+"value.rs", A+"slab.rs"],
  [("sends to the closed channel in Gpu::set, GpuArray::set_item and drops", A+"value.rs"), ("SlabBuffer::update_if_invalid", A+"slab.rs")],
  observe=["return values of the methods of handles and buffers"])
p("C23", "Buffers and values are released when nobody uses them",
  "A buffer of the runtime exists only as long as the allocator works with it or someone holds it: a replaced buffer that nobody holds is released by the commit that replaced it, and when the allocator and all held buffers are gone no buffer remains. The CPU side value is released with the last handle that has a CPU side, whether or not it was committed, also if GPU-only handles remain or the allocator lives on.",
  ["histories"], "all histories of growth, of retaining and dropping buffers, values and allocators",
  "No test observes release.",
  [A+"slab.rs", A+"value.rs"],
  [("weak reference of a buffer to its allocator", A+"slab.rs"), ("weak references to update sources", A+"slab.rs"), ("into_gpu_only", A+"value.rs")],
  observe=["number of live buffers of a counting runtime", "number of live values"])
p("C24", "The wgpu runtime does what the CPU runtime does, and reads back what the GPU has",
  "For every history of operations, an allocator on the wgpu runtime has the words in its buffer that the documentation promises and that one on the CPU runtime has, and every call it makes is valid. A new buffer is zero, and has the label and at least the usages that were asked for, and can be copied from and to and bound as storage. Reading any range of the buffer, an empty one included, gives the words it holds; the allocator reads nothing but an error before the first commit, reads with an open end give what was allocated as far as the committed buffer has it, and a typed array is read as the values its words encode. A read ends without anybody else using the device, and one that overlaps with writes, copies or growth gives the words of one moment since it was asked for; a buffer that cannot be mapped is an error and not a panic, and later reads work; a read may be dropped at any time. Reading changes nothing and leaves no buffer behind.",
  ["histories", "inputs", "fault_sequences"], "all histories, read ranges, failing mappings, and moments at which the GPU and its callbacks get to run",
  "The wgpu runtime is not tested at all.",
  [A+"runtime.rs", A+"slab/wgpu_slab.rs"],
  [("IsRuntime for WgpuRuntime", A+"runtime.rs"), ("read and read_array of the allocator", A+"slab/wgpu_slab.rs")],
  observe=["words of the buffers of a simulated GPU", "results of reads", "validation errors", "number of live buffers"])
p("C25", "The slab works on the GPU as it does on the CPU",
  "Compiled for a GPU, where accesses to the slab are not checked, the slab is the same as on the CPU: all types encode and decode to the same words, ids and arrays address the same words, and derived types and offsets compile without the standard library and behave the same. Reading or writing an id, item, slice or array that does not fit accesses no word outside the slab, changes nothing, and gives the default or the index it was given.",
  ["inputs", "programs", "configurations"], "all values of all types, all slab lengths, indices and array lengths, and all type definitions",
  "No test compiles the crate as it is compiled for a GPU.",
  [S+"lib.rs", S+"slab.rs", D],
  [("unchecked accesses when compiled for spirv", S+"lib.rs"), ("bounds checks in Slab", S+"slab.rs"), ("paths in the generated code", D)],
  observe=["compilation", "words of the slab", "accesses that are out of bounds"])
p("C26", "Memory does not accumulate",
  "If a program repeats the same work and each time drops what it created and commits, the memory held by the allocator and by values that live on stays bounded, however often it is repeated and whatever was cloned, set, looked at, weakly held or committed in between. The same is true of values that are set again and again after their allocator is gone. When an allocator and all handles and buffers are dropped, in any order, no memory remains.",
  ["histories"], "all cycles of operations, repeated any number of times, and all orders of dropping",
  "No test looks at memory or repeats anything.",
  [A+"slab.rs", A+"value.rs", A+"range.rs"],
  [("update_sources, update_queue, recycles", A+"slab.rs"), ("updates queued by GpuArray::set_item", A+"value.rs")],
  state=[("update sources", "weak references to all values", A+"slab.rs"), ("queued updates", "updates not yet committed", A+"value.rs")],
  observe=["bytes on the heap"])
p("C27", "A panic in user code harms nothing but the value being changed",
  "If user code panics in a closure that modifies a value or array item, while it holds a lock guard, or while it yields the items of a new array, the panic reaches the caller and at most the CPU side of that one value becomes unusable. All other values, the allocator, its commits, pending updates and buffers go on as if nothing had happened, and the value's own handles can still be identified, counted, cloned, downgraded, upgraded and dropped. Its space is reclaimed when its last owner is gone, also if the panic is what drops it; destructors that run because of the panic can use everything else as usual, and nothing else panics or blocks.",
  ["histories", "fault_sequences"], "all histories of operations with panics of user code at any point",
  "No test has code that panics.",
  [A+"value.rs", A+"slab.rs"],
  [("locks held while closures run", A+"value.rs"), ("drop of HybridWriteGuard", A+"value.rs"), ("creation of arrays from iterators", A+"value.rs")],
  observe=["all observations of the allocator's histories", "the panics that come out"])
p("C28", "Every feature configuration builds and behaves the same",
  "The crates build without their default features, that is without wgpu and without math types, and all that does not need these works in the same way: values of all types, also of a user's own math types, round-trip and are laid out and bounded as specified, and histories of the allocator commit, reclaim and refresh as they do with all features.",
  ["configurations", "histories", "inputs"], "all feature sets, with all values of all types, and all histories of the allocator",
  "Tests are only built with the default features.",
  [A+"runtime.rs", A+"slab.rs", S+"impl_slab_item/mod.rs"],
  [("items that depend on the wgpu feature", A+"runtime.rs"), ("items that depend on the wgpu feature", A+"slab.rs"), ("items that depend on the glam feature", S+"impl_slab_item/mod.rs")],
  observe=["compilation", "words of the slab", "contents of the committed buffer"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
