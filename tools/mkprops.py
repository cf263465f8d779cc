import json
P=[]
def p(id,title,st,over,text,why,files,mech,observe=None,hook=None):
    a={"files":["include/co_ecs/"+f for f in files],"mechanism":[{"name":n,"where":"include/co_ecs/"+w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Registry behaves as a map from entities to component values",
 "After any sequence of creating and destroying entities and of setting, replacing, inserting-if-absent and removing components, every live entity has exactly the components last given to it, each with exactly the last value written, and no operation on one entity changes another. Every way of looking (membership test, single and multi-component reads, mutable and read-only references, visiting all components of an entity) agrees with that. The same goes for entity references that were obtained earlier and kept: they work on, and report, the entity as it is now. A value passed to an operation counts as it was at the time of the call, even when it is itself stored in the registry.",
 ["histories","inputs"],"every operation sequence over a bounded alphabet of operations, entities, component types and values, from empty and from pre-populated registries",
 "Tests run a handful of fixed short sequences, nearly all from an empty registry with one storage block; they never compare all observers after each step.",
 ["registry.hpp","base_registry.hpp","entity_ref.hpp","archetype.hpp","chunk.hpp"],
 [("archetype migration on set/remove","base_registry.hpp set_impl/remove"),("location table fix-up of the swapped entity","base_registry.hpp set_location"),("chunk move/swap_erase","chunk.hpp")],
 ["entity_ref/const_entity_ref accessors","registry::size/empty"])
p("C02","Entity handles are unique and never come back to life",
 "Every handle a registry issues differs from all handles it issued before; it reports alive from the moment its entity exists until that entity is destroyed or moved away, and never again afterwards, even when its slot is reused. Any operation through a stale or invalid handle reports the documented not-found error and changes nothing. The number of live entities reported equals the number created minus the number gone.",
 ["histories"],"every sequence of create, clone, transfer, destroy and use of live, stale and foreign handles within a bounded depth",
 "Tests recycle one or two slots once; stale handles are probed for one operation only.",
 ["detail/handle.hpp","base_registry.hpp","entity_ref.hpp"],
 [("generation counter and free list","detail/handle.hpp handle_pool"),("liveness check before each access","base_registry.hpp get_location")],
 ["registry::alive","entity_not_found"])
p("C03","Multi-block storage stays complete and dense under any removal order",
 "When entities with the same set of components fill more than one storage block, then after any order of adding, destroying or re-typing entities every surviving entity keeps its values and is still reachable by handle and by iteration. All storage blocks of one component set except the last are full, and no empty block is kept besides the first one.",
 ["histories"],"every operation sequence on entities large enough that two or three fill a block, including all removal orders across block boundaries",
 "Tests erase from the single or last block only; the position of the victim relative to block ends is never varied.",
 ["archetype.hpp","chunk.hpp","base_registry.hpp"],
 [("swap with the last entry of the last block","archetype.hpp swap_erase"),("block allocation","archetype.hpp ensure_free_chunk")],
 ["view::chunks","archetype::chunks"])
p("C04","Every component object is constructed and destroyed exactly once",
 "Each component object the registry constructs, by creation, assignment, migration between component sets, cloning or transfer, is destroyed exactly once, is never read, assigned or moved from outside its lifetime, and none survives its entity, its removal or the registry. This holds also when an operation fails part-way.",
 ["histories","fault_sequences"],"every operation sequence within the bound, with an optional exception injected at each component construction, ending in registry destruction",
 "Tests count constructions for two or three fixed scenarios and never inject a failing constructor.",
 ["chunk.hpp","archetype.hpp","entity_ref.hpp","type_meta.hpp"],
 [("per-entry destroy loop","chunk.hpp destroy_at"),("type-erased move/copy/destroy","type_meta.hpp")],
 ["instrumented component types"])
p("C05","Component storage is aligned, in bounds and non-overlapping",
 "For every combination of component types, whatever their sizes and alignments and the order in which they are attached, every component object handed out lies at an address aligned for its type, inside memory owned by the registry, and overlaps no other object; each holds its own value. A combination for which not even one entity fits a storage block is rejected with the documented error instead.",
 ["inputs","configurations"],"every combination and order of component types from a grid of sizes and alignments (1 to 64 bytes, sizes up to beyond a block), with full and more than full blocks",
 "Tests use small types with alignment up to eight and never fill a block of mixed alignments.",
 ["archetype.hpp","chunk.hpp"],
 [("block offset computation","archetype.hpp add_block"),("capacity computation","archetype.hpp get_max_size")],
 ["addresses of references returned by get and views"])
p("C06","Views visit exactly the matching entities, each once, with its own data",
 "A view over a list of component types yields, for each live entity having all of them, exactly one tuple, whose references denote that entity's own components, and yields nothing else; asking for the entity handle too yields that entity's handle. The range form, callback form, first-match form, block-wise form, read-only forms and the registry-level shortcuts agree with each other. Writing through a view changes the entity and nothing else. A view may be kept across changes of the registry: it always yields what a new one would, also inside another iteration.",
 ["histories","inputs"],"every view signature over the component alphabet, in every reachable small registry state including ones with emptied component sets and several blocks",
 "Tests use fixed populations and a few signatures, mostly before any removal has happened.",
 ["view.hpp","registry.hpp","chunk.hpp","archetype.hpp"],
 [("archetype filter and chunk join","view.hpp chunks"),("pointer-bumping iterator","chunk.hpp chunk_view")],
 ["view::each/single/chunks","registry::each/single"])
p("C07","Cloning and transferring entities preserves every component",
 "A clone or a copy into another registry has exactly the source's components with equal values, is independent of the source, and leaves the source as it was. A transfer to another registry carries every component over, makes the source handle dead, and leaves all other entities of both registries untouched. This holds also when the destination handle was reserved beforehand.",
 ["histories"],"every sequence of create, mutate, destroy, clone, copy and move over two registries, with and without reserved destination handles, within a bounded depth",
 "Tests perform one clone, copy or move on a one- or two-entity registry.",
 ["base_registry.hpp","archetype.hpp","chunk.hpp","entity_ref.hpp"],
 [("archetype matched by component set in destination","base_registry.hpp move/copy"),("handle rewritten in the destination block","base_registry.hpp move/copy")],
 ["both registries compared with a reference model"])
p("C08","Failed operations leave the registry as it was",
 "When an operation reports an error (entity not found, component not present, component set too large for a block, component that cannot be copied, or a component constructor that throws), all entities, components, values and the live count are as before the call, no handle has come into existence, and the registry remains fully usable.",
 ["fault_sequences","histories"],"every failing operation at every point of every bounded operation sequence, followed by further operations",
 "Tests check that the error is reported, not what is left behind, and do not go on using the registry.",
 ["base_registry.hpp","archetype.hpp","chunk.hpp","entity_ref.hpp","exceptions.hpp"],
 [("liveness check","base_registry.hpp get_location"),("archetype creation","archetype.hpp ensure_archetype"),("clone/copy","base_registry.hpp copy")],
 ["registry compared with a reference model after each error"])
p("C09","Reserved handles are unique under concurrent reservation",
 "Handles reserved by any number of threads at the same time, on a registry that may have recycled slots, are pairwise distinct and distinct from every handle ever issued, without any locking by the caller. After synchronisation each reserved handle is alive and can be filled with an entity. This holds also when entities are created or destroyed between reservations and synchronisation.",
 ["schedules","histories"],"all interleavings of 2-3 threads reserving concurrently, for all small free-list states, and all bounded sequences mixing reserve, sync, create and destroy",
 "Tests reserve from one thread, with no recycled slots outstanding.",
 ["detail/handle.hpp","base_registry.hpp"],
 [("atomic free-list cursor","detail/handle.hpp reserve"),("flush","detail/handle.hpp flush")],
 ["registry::reserve/sync/alive"])
p("C10","Deferred commands equal direct execution in recording order",
 "Commands recorded through a command writer (create, set, remove, clone, destroy) change nothing in the registry until flushed; flushing applies each exactly once, in recording order, with the same result as performing the operations directly at that time, and the handle given out at recording becomes the entity. A command that fails reports its error, is not repeated by later flushes, and neither it nor any other command leaves leftover component objects behind once played.",
 ["histories","fault_sequences"],"every sequence of recorded commands and flushes within a bounded depth, including commands targeting entities created, cloned or destroyed earlier in the same batch and commands that fail",
 "Tests record one command at a time and flush once.",
 ["command.hpp","base_registry.hpp"],
 [("per-thread command deque and staging registry","command.hpp command_buffer"),("flush","command.hpp flush")],
 ["registry state before and after flush compared with a reference model"])
p("C11","Commands recorded on any thread are applied exactly once",
 "Commands recorded concurrently on several threads, while no flush is running, are all applied by the next flush exactly once and per thread in recording order, including commands recorded by threads that have exited before the flush. Recording and creating or ending threads never corrupts a buffer, races or accesses freed memory.",
 ["schedules"],"all interleavings up to a preemption bound of 2-3 recording threads, thread exit and flushes",
 "Tests record on the main thread only.",
 ["command.hpp"],
 [("thread-local buffer registration under a mutex","command.hpp command_buffer"),("reserve","detail/handle.hpp")],
 ["registry state after flush","race and freed-memory monitors"])
p("C12","Systems with conflicting access never run at the same time",
 "Within a schedule, two systems of which one may modify what the other reads or modifies (a component type through views, or anything through registry access, including deferred-command writing against full registry access) never execute concurrently, whatever other systems are in the stage and whether a system runs on the worker threads or on the main thread. Systems that only read the same data may share a batch.",
 ["configurations","schedules"],"all stages of up to 3-4 systems over an alphabet of access signatures and main-thread flags, in all orders, under all schedules of the controlled thread pool",
 "Tests schedule a couple of systems whose overlap is never observed; conflicts are not enumerated.",
 ["system/access.hpp","system/stage.hpp","system/system.hpp"],
 [("pairwise access check when forming batches","system/access.hpp allows, system/stage.hpp create_executor"),("batch barrier","system/stage.hpp execute_batch")],
 ["begin/end events of systems"])
p("C13","Each system runs exactly once per pass and stages are barriers",
 "For every schedule, creating an executor runs every init system exactly once, and each pass runs every system of every stage, worker or main-thread, exactly once, all systems of a stage finishing before any system of the next begins. Commands recorded by systems have been applied when the pass or the initialisation returns. A schedule can produce any number of executors, each complete.",
 ["configurations","schedules"],"all schedules of up to 2-3 stages with up to 3-4 systems each over signatures and main-thread flags, several passes and executors, under all schedules of the controlled thread pool",
 "Tests run one or two fixed schedules once and mostly count worker systems.",
 ["system/schedule.hpp","system/stage.hpp","command.hpp"],
 [("batch formation","system/stage.hpp create_executor"),("stage loop and flush","system/schedule.hpp run_once")],
 ["system run counters and order log"])
p("C14","Task pool: waiting means done, each task runs once, nothing hangs",
 "Each submitted task runs exactly once, on some worker, by the time a wait for it or one of its ancestors returns, even when submitted from inside another task. Waiting for a task returns only after it and all tasks submitted with it as ancestor have finished, and everything they wrote is visible to the waiter. No schedule makes waiting, working or shutting the pool down hang.",
 ["schedules"],"all interleavings up to a preemption and stale-read bound of pools with 1-3 workers running task trees of up to 3 levels, including shutdown",
 "Tests run a few tasks on real threads under whatever schedule the machine happens to produce, on a strongly ordered processor.",
 ["thread_pool/task.hpp","thread_pool/thread_pool.hpp","detail/work_stealing_queue.hpp"],
 [("unfinished-task counter chained to the parent","thread_pool/task.hpp finish"),("work-helping wait","thread_pool/thread_pool.hpp wait"),("semaphore wake-up","thread_pool/thread_pool.hpp idle")],
 ["task run counters, plain data written by tasks and read by the waiter"])
p("C15","Parallel iteration applies the function to each element exactly once",
 "Parallel iteration over a range, or over the entities of a view, applies the given function exactly once to every element and to nothing else, for every range length and number of workers, and has completed, with its effects visible to the caller, when it returns.",
 ["inputs","schedules"],"all range lengths and worker counts up to a bound, under all schedules up to a preemption bound",
 "Tests use one large range with the machine's worker count; remainders and small ranges are not enumerated.",
 ["thread_pool/parallel_for.hpp","view.hpp"],
 [("splitting into one batch per worker with remainder in the last","thread_pool/parallel_for.hpp")],
 ["per-element visit counters"])
p("C16","The work-stealing queue neither loses nor duplicates items",
 "With one owner pushing and popping and any number of other threads stealing, each pushed item is obtained by exactly one taker, or is still in the queue, in every interleaving and under the language's memory model, also while the queue grows. The owner takes the newest item, thieves the oldest, a lone taker never fails on a non-empty queue, and what the pusher wrote before pushing is visible to the taker.",
 ["schedules"],"all interleavings and permitted stale reads, up to a deviation bound, of an owner and 1-2 thieves doing up to 3-5 operations each, from empty, near-full, grown and wrapped-around states",
 "Tests hammer the queue on real threads: schedules and memory reorderings are sampled, not covered.",
 ["detail/work_stealing_queue.hpp"],
 [("Chase-Lev indices with seq_cst fences and CAS on top","detail/work_stealing_queue.hpp push/pop/steal"),("growth keeping old arrays","detail/work_stealing_queue.hpp grow")],
 ["values returned by pop/steal, plain payloads"])
p("C17","The hash map behaves as a map for every history and hash",
 "The hash map and set agree with an ordinary map after every sequence of insertions, assignments, erasures, lookups, clears, copies, moves, swaps and reserves, whatever the hash function and (power-of-two) bucket count, and constructing from a range leaves the source range unchanged. Iteration visits each entry exactly once. Every stored element is constructed and destroyed exactly once.",
 ["histories","inputs"],"every operation sequence within a bounded depth over a small key set, for identity, colliding and wrap-around hashes, from empty and from pre-filled tables around each resize threshold",
 "Tests insert and erase ranges of integers with the default hash; probe chains that wrap or shift are reached by luck.",
 ["detail/hash_table.hpp","detail/hash_map.hpp"],
 [("robin-hood displacement and backward-shift erase","detail/hash_table.hpp emplace_impl/erase_impl"),("grow and shrink","detail/hash_table.hpp reserve")],
 ["lookups, iteration and size compared with std::map"])
p("C18","The sparse map and set behave as a map and set",
 "The sparse map and set agree with an ordinary map after every sequence of insertions, erasures, lookups, clears, copies and moves, for every key type including keys covering the whole range of a narrow type; a moved-from container is empty and usable.",
 ["histories","inputs"],"every operation sequence within a bounded depth over boundary keys, for 8, 16 and 32 bit key types, from empty, full and moved-from containers",
 "Tests use a few small keys and never reuse a moved-from container or a full key range.",
 ["detail/sparse_table.hpp","detail/sparse_map.hpp"],
 [("dense/sparse cross-indexing","detail/sparse_table.hpp"),("swap with last on erase","detail/sparse_table.hpp erase")],
 ["lookups, iteration and size compared with std::map"])
p("C19","Component sets compare by content; one storage group per set",
 "Two component sets, or bit sets, are equal exactly when they contain the same members, however they were built, and equal sets have equal hashes. Hence entities reaching the same set of component types by any path, in any order, share one storage group, and membership answers always match the insertions and removals made.",
 ["histories","inputs"],"every sequence of insertions, removals and clears within a bounded depth over members on both sides of every word boundary, for several initial sizes, and all construction paths of entity component sets",
 "Tests compare a few sets built in one or two ways, all within one machine word.",
 ["detail/dynamic_bitset.hpp","component.hpp","archetype.hpp"],
 [("block trimming on clear","detail/dynamic_bitset.hpp set"),("set-keyed archetype table","archetype.hpp ensure_archetype")],
 ["equality, hashes, archetype addresses"])
p("C20","Scratch allocators hand out disjoint, aligned, in-bounds memory",
 "Memory obtained from the linear and stack allocators is suitably aligned, lies inside the allocator's buffer, and overlaps no other live allocation; a request that does not fit is refused and changes nothing. Releasing stack allocations in reverse order makes exactly that space available again, and moving an allocator carries its allocations over.",
 ["histories","inputs"],"every sequence of allocations of boundary sizes and alignments, reverse-order releases, clears and moves within a bounded depth, for buffer sizes around the bookkeeping size",
 "Tests make a few allocations in a roomy buffer.",
 ["detail/allocator/linear_allocator.hpp","detail/allocator/stack_allocator.hpp"],
 [("bump offset with std::align","detail/allocator/linear_allocator.hpp allocate"),("header before each allocation","detail/allocator/stack_allocator.hpp")],
 ["returned addresses against the buffer bounds"])
p("C21","Component type ids are unique, stable and shared between binaries",
 "Each type receives one id that never changes, types with distinct names receive distinct ids, and every part of a program, including separately loaded binaries that import the ids from the host, sees the same id for the same type, whatever the order in which types are first used.",
 ["configurations","histories"],"all orders of first use of several types across a host and two dynamically loaded clients, all load orders",
 "Tests compare two fixed host/client lookups in one load order.",
 ["component.hpp","type_meta.hpp","detail/macro.hpp"],
 [("name-keyed id table exported by the host","component.hpp type_registry"),("type name extraction","type_meta.hpp type_name")],
 ["component_id::value in each binary"])
p("C22","Concurrent read-only or disjoint component access is safe",
 "Any number of threads may at the same time iterate read-only views, read through read-only references, and write components of different types or of different entities through views, on one registry, without data races and with every thread seeing the values it would see alone. Threads that work on different registries do not affect each other.",
 ["schedules"],"all pairs and triples of read and disjoint-write operations on a populated registry under all interleavings up to a preemption bound, with a happens-before race monitor on every memory access",
 "Tests access the registry from one thread, and a race that does not change a value goes unnoticed.",
 ["view.hpp","registry.hpp","archetype.hpp","chunk.hpp","base_registry.hpp"],
 [("const access paths without hidden mutation","view.hpp, chunk.hpp, base_registry.hpp")],
 ["race monitor, values read"])
p("C23","Systems are given their own executor's registry, context and memory",
 "In every run, a system's function receives, in the order it declares them, exactly the arguments it asks for: the registry its executor was created for, views of that registry as it is at that moment, a command writer recording for it, and user-defined arguments made from that registry and from the user context given to that executor, whether it is an init, worker or main-thread system. What a function object or argument remembers persists from pass to pass and belongs to one executor: other executors of the same schedule do not affect it, and an executor stays usable when its schedule is gone. An executor reports the name its system was given.",
 ["histories","inputs"],"all signatures of up to two arguments of eight kinds (and some longer ones), in every place a system can be in, with all histories of creating executors on two registries and contexts, passes, new entities and destroying schedule or executors, within a bounded depth",
 "Tests run each system in one executor over one registry and never pass a user context.",
 ["system/system.hpp","system/stage.hpp","system/schedule.hpp","system/named_system.hpp"],
 [("argument states made from registry and user context","system/system.hpp system_state"),("function copied per executor","system/system.hpp system::create_executor")],
 ["addresses and values of arguments inside systems, call counters kept by function objects"])
p("C24","Memory and entity ids are reused: repeated work does not accumulate",
 "When a program repeats a sequence of operations that ends where it began (entities created are destroyed again, components attached are removed or go with their entity, recorded commands are executed, entities moved or copied away are destroyed there, operations that fail are caught, containers are emptied, queues are drained, passes of a schedule leave the registry as it was), then, after the first few repetitions, neither the memory in use nor the highest entity id grows, however often it is repeated: identifiers, storage blocks, storage groups, staged components, recorded commands, table and ring capacity and task slots are used again. A handle that was reserved and never given to an entity stays taken.",
 ["histories"],"every cycle of operations within a bounded length over a broad alphabet, in an empty registry and beside other entities, each repeated 120 times; likewise for cycles of schedule passes and of container operations",
 "Tests run short histories once and do not look at memory; slow growth shows only after many repetitions of a particular combination of operations.",
 ["detail/handle.hpp","archetype.hpp","base_registry.hpp","command.hpp","detail/hash_table.hpp","detail/sparse_table.hpp","detail/work_stealing_queue.hpp","thread_pool/task.hpp"],
 [("free list of ids","detail/handle.hpp handle_pool"),("staging registry emptied when commands are executed","command.hpp"),("blocks freed when emptied","archetype.hpp swap_erase"),("ring index","detail/work_stealing_queue.hpp"),("task slots","thread_pool/task.hpp task_pool")],
 ["bytes allocated as counted by the allocator, entity ids"])
import sys
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
from jsonschema import validate
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: validate(x,s)
print(len(P))
