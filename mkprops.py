#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as a script only so that the text is easy to edit)."""
import json, sys, os
RS="src/rc/rc_slice.rs"; RM="src/rc/rc_slice_mut.rs"; AS="src/arc/arc_slice.rs"; AM="src/arc/arc_slice_mut.rs"
SI="src/internal/slice_model/slice_items.rs"; SA="src/internal/slice_model/slice_alloc.rs"; SM="src/internal/slice_model/mod.rs"
BP="src/internal/bin_parts_iter.rs"; GT="src/internal/gate.rs"; MC="src/internal/macros/"
def m(n,w): return {"name":n,"where":w}
def st(n,me,w): return {"name":n,"meaning":me,"where":w}
P=[]
def add(id,title,statement,over,qtext,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":mech}
    if state: a["state"]=state
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

add("C01","Every handle always views exactly its own subslice",
 "After any sequence of operations on the single-threaded or the atomically counted family, every live handle (shared, unique, iterator, parts iterator, or upgraded weak) dereferences to exactly the items its history says it covers: same items, same order, same length, with every earlier write through a handle to that range visible. Splitting a slice of length n always gives a left part of floor(n/2) items and a right part of the rest, and no operation on one handle changes what a handle to a disjoint range sees.",
 ["histories","inputs"],"all operation sequences over all handles, slice lengths and item types (sized, zero-sized, over-aligned)",
 "The tests follow a few dozen hand-written sequences on slices of 3-32 items; the views depend on pointer arithmetic and length halving at every depth and on every mixture of splits, conversions and partial consumption.",
 [RS,RM,AS,AM,SI],[m("midpoint arithmetic of shared slices",RS+": left_sub/right_sub; "+AS+": left_sub/right_sub"),m("midpoint arithmetic of unique slices",SI+": left_len/right_len/mid"),m("ZST-aware pointer/index ranges",SI+": zst_utils")],
 [st("ptr,len","the subslice a handle covers",RS+","+AS+","+SI)],["Deref, as_slice and as_mut_slice of every public handle"])
add("C02","Items are destroyed exactly once, exactly when nobody covers them",
 "Each item put into a slice is destroyed or moved out to the caller exactly once. It is never destroyed while any strong, unique or iterating handle still covers it, weak handles never keep it alive, and it is destroyed by the very operation that removes the last handle covering it, even when handles to larger or neighbouring ranges are gone or still there.",
 ["histories","inputs"],"all operation sequences, in particular all orders in which parents, children, grandchildren and weak handles are created and dropped, for all lengths and item types",
 "Which handle drops which item is decided by which child records exist and in which order counts reach zero; the tests try a handful of orders on three items.",
 [RS,AS,SI,RM,AM],[m("drop of the part not handed to a child record",RS+": Drop for RcSliceData; "+AS+": Drop for ArcSliceData"),m("forgetting items on conversion to a unique slice",RS+": forget_items; "+AS+": forget_items"),m("dropping remaining items",SI+": Drop for SliceItems/SliceItemsIter/SliceItemsParts")],
 [st("left_child/right_child","strong links to child records sharing item ownership",RS+","+AS)],["item destructors"])
add("C03","Memory is freed once, never too early, promptly, and never leaked",
 "The memory holding the items is released exactly once and with the layout it was allocated with, never while any handle still covers an item in it. It is released by the operation that removes the last handle covering at least one item (handles to empty subslices and weak handles do not keep it), and once all handles of every kind are gone nothing the library allocated, including its internal bookkeeping, remains allocated.",
 ["histories","inputs"],"all operation sequences, lengths and item types, for both families",
 "No existing test observes the allocator at all; a leak, a late release or a wrong layout is invisible to them.",
 [SA,SM,RS,RM,AS,AM],[m("shared owner of the allocation",SA+": Drop for SliceAlloc"),m("empty handles hold no allocation",RM+": split_off_left/right, iterators; "+AM+": same; "+RS+": clone_child; "+AS+": clone_child"),m("bookkeeping records",RS+": IntoMutGuard/GetMutGuard; "+AS+": DataGuard")],
 [st("alloc","counted owner of the backing memory, absent for empty handles",RM+","+AM+","+RS+","+AS)],["global allocator"])
add("C04","In-place mutable access is granted exactly to an unshared handle",
 "A shared handle is given mutable access in place only if no other strong handle to the same subslice, to one it was split from, or to one split from it exists, and no weak handle that could still be upgraded to its subslice or to a part of it exists. When none of these exist access is always granted, and handles to sibling or otherwise disjoint subslices never matter; while access is held no other handle can come to view the items.",
 ["histories","inputs"],"all operation sequences, including dropping and re-creating intermediate levels, cloning and upgrading weak handles, in both families",
 "Whether access is safe depends on the whole history of splits, downgrades and gaps in the hierarchy; the tests check four such histories for one family and none for the other.",
 [RS,AS],[m("RcSlice::get_mut and the guard hierarchy",RS+": get_mut, GetMutGuard, IntoMutGuard"),m("ArcSlice::get_mut and the guard hierarchy",AS+": get_mut, DataGuard")],
 [st("guards","one record per subslice, alive while some handle to it or a part of it exists",RS+","+AS)],["RcSlice::get_mut","ArcSlice::get_mut"])
add("C05","Conversion to a unique handle succeeds exactly when sole strong owner",
 "Converting a shared handle into a unique one succeeds exactly when no other strong handle exists to the same subslice, to one it was split from, or to one split from it; weak handles and handles to disjoint subslices never prevent it. On success all items stay in place, none is destroyed or copied, and every weak handle to the subslice or a part of it can never be upgraded again; on failure the caller gets back an equivalent handle and nothing has changed. Converting a unique handle to a shared one always preserves the items.",
 ["histories","inputs"],"all operation sequences, including repeated conversions back and forth with children and weak handles left over from earlier shared phases, in both families",
 "Success depends on counts spread over several records and on recursively disarming leftover child records; the tests cover five histories in one family and none in the other.",
 [RS,RM,AS,AM],[m("into_mut",RS+": into_mut; "+AS+": into_mut"),m("recursive forgetting",RS+": forget_items; "+AS+": forget_items"),m("into_immut",RM+": into_immut; "+AM+": into_immut")],
 [st("strong counts of records and guards","who else may reach the items",RS+","+AS)],["into_mut, TryFrom, into_immut, From"])
add("C06","Weak handles upgrade exactly while their subslice is fully kept alive",
 "Upgrading a weak handle succeeds exactly when a strong shared handle currently exists to the same subslice or to one that it was split from (within the same shared lifetime, that is, since the slice was last made shared). The upgraded handle views the same subslice and counts as an ordinary strong handle in every respect; a failed or successful upgrade has no other effect, and a freshly constructed unattached weak handle never upgrades.",
 ["histories","inputs"],"all operation sequences mixing downgrade, upgrade, weak clone, splits, conversions and drops at every level of the hierarchy, in both families",
 "The tests check a handful of downgrade/upgrade histories for one family and none for the other; the guards that an upgraded handle must rejoin depend on the whole history.",
 [RS,AS],[m("WeakSlice::upgrade",RS+": upgrade, ensure_into_mut_guard; "+AS+": upgrade"),m("downgrade",RS+": downgrade; "+AS+": downgrade")],
 None,["WeakSlice::upgrade, WeakSlice::new, WeakSlice::clone"])
add("C07","Shared parts iteration yields the exact recursive halving from both ends",
 "Splitting a shared slice into n parts (n any power of two) and consuming the result from both ends in any interleaving, with clones and early drops at any point, yields exactly the n subslices obtained by repeated halving, each once and in order; the reported length, size hint and remaining slice are exact at every step, and exhausted iterators stay exhausted. A clone continues independently from the same point, every operation terminates normally, and any other part count is rejected by a panic that still releases the slice correctly.",
 ["inputs","histories"],"all lengths, all part counts, all interleavings of next and next_back, with clone and drop at every point",
 "The tests enumerate the walks for 4 parts on a marker type and sample a few others; capacity and skip arithmetic differ at every part count, and iteration after cloning is only tested for 1 or 2 parts.",
 [BP,RS,AS],[m("BinaryPartsIter::next/next_back",BP),m("BinaryPartsIter::as_slice",BP),m("clone",BP+": Clone; "+RS+": Clone for RcSliceParts")],
 [st("num_yielded_front,num_yielded_back,deque","position of the iteration",BP)],["RcSliceParts, ArcSliceParts"])
add("C08","Unique handles split and iterate exactly, consuming each item once",
 "Splitting a unique slice in halves or n parts, turning it into an item iterator, splitting that iterator at any index, and consuming parts or items from both ends in any interleaving always partitions the original items: each item belongs to exactly one handle, is yielded at most once, in order, and whatever is not consumed is destroyed with its handle. Lengths, size hints and remaining slices are exact at every step, writes through the remaining-items slice are what is later yielded, exhausted iterators stay exhausted, and an out-of-range split index or invalid part count panics without losing, duplicating or leaking an item.",
 ["inputs","histories"],"all lengths (including zero-sized items with lengths up to the maximum), all part counts, all split points and all interleavings, with drop at every point",
 "The tests cover all walks only for 4 parts of 4 items; offsets of the front and back cursor are computed independently for every part count, length and position.",
 [SI,RM,AM],[m("SliceItemsIter",SI),m("SliceItemsParts::next/next_back/as_raw_slice_parts",SI),m("sharing of the allocation between split iterators",RM+","+AM)],
 [st("range; num_yielded_front/back","cursors",SI)],["RcSliceMut, RcSliceMutIter, RcSliceMutParts and the Arc counterparts"])
add("C09","Standard traits behave exactly as on the plain slice",
 "Equality, ordering, hashing, debug formatting, borrowing, conversion from vectors and boxed slices, collecting from iterators, and deep cloning of unique handles give, for every content, the same result as the same operation on a plain slice with the same items, including partially ordered items and items of different types on both sides of an equality. A deep clone shares nothing with its source.",
 ["inputs"],"all pairs of contents, including empty, prefix-related and incomparable ones, and handles reached by splitting",
 "The tests compare two or three fixed pairs per type.",
 [MC+"cmp.rs",MC+"hash.rs",MC+"fmt.rs",MC+"borrow.rs",MC+"iter.rs",RM,AM],[m("delegating trait macros",MC),m("Clone for unique handles",RM+": Clone; "+AM+": Clone")],None,["PartialEq, PartialOrd, Ord, Hash, Debug, Borrow, AsRef, FromIterator, From, Clone"])
add("C10","The two families are interchangeable on one thread",
 "Any sequence of operations performed on one thread gives the same results with the atomically counted family as with the single-threaded family: the same grants and refusals of mutable access and conversion, the same upgrades, the same views, the same items destroyed by the same operations, and the same memory released.",
 ["histories","inputs"],"all single-threaded operation sequences, lengths and item types",
 "The tests exercise the two families separately and the atomic one hardly at all beyond construction, splitting and dropping.",
 [RS,RM,AS,AM],[m("parallel implementations of the same interface",RS+" vs "+AS+"; "+RM+" vs "+AM)],None,["the public interface of both families"])
add("C11","No schedule gives two threads conflicting access to an item",
 "Whatever threads do concurrently with atomically counted handles to overlapping or neighbouring subslices (clone, split, downgrade, upgrade, convert, request mutable access, read, write, drop), no thread can read or write an item while another thread writes or destroys it, and every such access is ordered after the accesses of handles that had to be gone first, under the language's weak memory model and not only under sequential consistency.",
 ["schedules"],"all interleavings and all memory-order-permitted behaviours of any number of threads operating on handles of one slice",
 "The tests run threads freely a few times on disjoint or read-only handles; races need a specific interleaving or a weakly ordered machine.",
 [AS,AM,GT],[m("exclusive-access check",AS+": get_mut"),m("conversion check",AS+": into_mut"),m("synchronisation primitive",GT)],
 [st("counts, child links and guards","who else may reach the items",AS)],["reads and writes through ArcSlice, ArcSliceMut"])
add("C12","Under every schedule each item is destroyed once and all memory is freed",
 "Whatever threads do concurrently with atomically counted handles, every item is destroyed exactly once and not before the last strong handle covering it has begun to go away, the backing memory and all bookkeeping are freed exactly once, and when all threads are finished and all handles are gone every item is destroyed and nothing remains allocated.",
 ["schedules"],"all interleavings of creating, splitting, upgrading, converting and dropping handles on several threads, including losing the race to create a child or a bookkeeping record",
 "The tests run two scenarios freely; losing a creation race or a drop race is never forced, and freed memory is not observed.",
 [AS,AM,SA],[m("racing creation of child records",AS+": clone_child"),m("racing creation of guards",AS+": DataGuard::guard"),m("drop",AS+": Drop for ArcSliceData"),m("conversion",AS+": into_mut, forget_items")],
 None,["item destructors, allocator, internal counts"])
add("C13","Racing grants, refusals and upgrades are justified by existing handles",
 "Under every schedule a concurrent conversion to unique or request for mutable access succeeds only if at some moment during the call no conflicting handle existed, and is refused only if a conflicting handle's existence, or another thread's call on a related subslice, was not ordered entirely before or after the call. A weak upgrade succeeds only if a strong handle covering the subslice existed during the call, and is refused only if at some moment during the call there was none. In particular of several threads trying to take the same items at most one succeeds, a thread alone with its handle always succeeds, and concurrent splits on clones of one handle all view the right parts.",
 ["schedules"],"all interleavings of two or three threads operating on the same, ancestor, descendant and sibling subslices",
 "The tests never race conversions, mutable access or upgrades.",
 [AS],[m("into_mut",AS+": into_mut"),m("get_mut",AS+": get_mut"),m("upgrade/downgrade",AS+": upgrade, downgrade"),m("clone_left/clone_right",AS+": clone_child, guard")],
 None,["results of ArcSlice::into_mut, get_mut, WeakSlice::upgrade, clone_left/right"])
add("C14","Concurrent operations never deadlock or livelock",
 "Under every fair schedule every operation on atomically counted handles completes: no combination of concurrent splitting, downgrading, upgrading, conversion, mutable access and dropping leaves a thread waiting forever, and nothing an operation waited for stays closed after the operation that closed it has returned.",
 ["schedules"],"all fair interleavings of two or three threads, with further use of the handles afterwards",
 "The tests never make two operations that wait for each other overlap.",
 [AS,GT],[m("short-lived gates",GT+": Gate, Latch"),m("waiting and retry loops",AS+": waiting on gates, guard creation loop")],[st("is_closed","gate closed while an operation is in its critical section",GT)],["termination of every public operation"])
add("C15","A panicking destructor or clone never causes reuse or double destruction",
 "If the destructor, clone or iterator code supplied by the user panics at any point inside any operation, then no item is destroyed or moved out twice, no item covered by a surviving handle is destroyed, every surviving handle stays fully usable, and the memory is still released exactly once and not while in use. Items may be leaked by the panicking operation only.",
 ["fault_sequences","histories"],"every position at which user code runs during every operation sequence, with a panic injected there",
 "No existing test panics inside a destructor or clone.",
 [RS,RM,AS,AM,SI,SA],[m("ownership moved before user code runs",SI+": iterators, Drop impls; "+RS+": Drop for RcSliceData"),m("field order: items before memory",RM+","+AM)],None,["item destructors, allocator, surviving handles"])
add("C16","Destructors and other user code may re-enter the library safely",
 "User code that runs inside a library operation (item destructors, item clones) may itself use handles to the same slice: upgrade or drop weak handles, clone, split or drop strong handles to other parts, request mutable access or conversion. Whatever it does, items are still destroyed exactly once and only when uncovered, every handle obtained inside the callback stays valid, no memory is freed in use, and no operation hangs.",
 ["histories","inputs"],"every operation sequence combined with every re-entrant action performed from every item destructor",
 "No existing test re-enters the library from a destructor.",
 [RS,AS,RM,AM,SI],[m("child links taken before items are dropped",RS+": Drop for RcSliceData; "+AS+": Drop for ArcSliceData"),m("counts reach zero before destructors run",RS+","+AS)],None,["item destructors calling the public interface"])
add("C17","No operation sequence executes undefined behaviour",
 "No sequence of safe operations on either family makes the library touch memory out of bounds, after it was freed, before it was initialised or with wrong alignment, form an invalid pointer or reference, or release memory it does not own, for any item size and alignment including zero-sized items.",
 ["histories","inputs"],"all operation sequences, lengths and item layouts",
 "Undefined behaviour usually produces the expected values in a test run; the tests do not run under any monitor.",
 [SI,SA,SM,RS,AS,BP],[m("raw pointer code",SI+","+BP+": as_slice"),m("from_raw/into_raw child links",RS+": clone_child, take_child; "+AS+": clone_child, take_child")],None,["every memory access of the library, as interpreted by Miri"])
add("C18","Handles cross threads exactly when nothing bad can come of it",
 "Whether a handle may be sent to another thread or lent to one follows from what safe code could then do. No handle of the single-threaded family can ever be used on two threads. With the atomically counted family no sequence of safe calls, moves and loans that the types permit lets an item that must not be sent be destroyed, moved out or mutated away from its own thread, or lets two threads reach an item that must not be shared; and whatever can't lead to that is permitted: shared and weak handles and iterators over shared parts cross threads exactly if the items may be both sent and shared, unique handles, their iterators and parts can be sent exactly if the items can and shared exactly if the items can.",
 ["programs","histories"],"all item types, all histories of calls, moves and loans that the types permit",
 "It quantifies over programs that must be rejected by the type checker, and the tests have none; what a wrongly placed marker permits shows only on some history of calls across threads.",
 [AS,AM,RS,RM,SI,SA],[m("unsafe impl Send/Sync",AS+","+SI+","+SA)],None,["every permission the compiled types give leads to no bad history, every one they withhold would"])
add("C19","All handles are covariant in the item type",
 "Wherever a handle to items of a longer lived type is at hand it can be used as one to items of a shorter lived type, for every kind of handle of both families.",
 ["programs"],"all item types and all client programs",
 "It quantifies over programs that the type checker must accept; the tests check one instance per type.",
 [AS,AM,RS,RM,SI],[m("PhantomData and type-erased child pointers",RS+","+AS)],None,["the type checker"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl")
open(out,"w").write("".join(json.dumps(p)+"\n" for p in P))
