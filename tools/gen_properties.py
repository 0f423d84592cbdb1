#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay readable)."""
import json, os
W="arche_tape/src/world.rs"; E="arche_tape/src/entities.rs"; B="arche_tape/src/entity_builder.rs"
S="arche_tape/src/static_query.rs"; D="arche_tape/src/dyn_query.rs"; I="arche_tape/src/bitset_iterator.rs"
U="untyped_vec/src/lib.rs"; A="arche_tape/src/array_vec.rs"; L="arche_tape/src/lib.rs"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
                   mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(observe),hook_needed=None)))

p("C01","Entity handles are unique and liveness is exact",
 "Every handle returned by spawning is different (by equality, ordering, hashing and its 64-bit value) from every handle issued before it by that world, and is reported alive from the moment it is built until it is despawned and never again afterwards, even when its index has been reused. Despawning reports true exactly once per handle and false for an already dead one. (Up to 2^32 reuses of one index, after which the generation counter wraps.)",
 ["histories"],"all histories of spawning and despawning, in any order and with any amount of index reuse, of plain entities and of component entities",
 "Tests spawn at most four entities and reuse one index once; liveness must be exact after every history, including deep free lists and many generations.",
 [E,W],[("Entities::spawn / despawn / is_alive",E),("World::despawn",W)],
 [("generations","alive flag and generation per index",E),("despawned","LIFO free list of indices",E)],
 ["World::spawn().build()","World::is_alive","World::despawn","Entities API","EcsId::as_u64/Eq/Ord/Hash"])

p("C02","An entity holds exactly the components its history gave it",
 "After any sequence of valid spawns, component additions, component removals and despawns, every live entity has exactly the components given to it and not removed since, each with the value last stored; every lookup (presence test, single-entity query, raw pointer lookup) reports exactly that. Every valid operation completes without panicking, no matter which operations on which other entities came before.",
 ["histories","inputs"],"all histories of valid structural operations, all component sets, all component layouts, all numbers of entities, component kinds and distinct component sets",
 "The tests follow a handful of straight-line scripts with at most three component kinds; swap-removal, edge caches and archetype creation only misbehave for specific multi-step histories or sizes.",
 [W,B,A,S],[("World::add_component_dynamic_with_data / remove_component_dynamic",W),("AddRemoveCache",W),("EntityBuilder::build",B),("Archetype::from_archetype_with / without",W),("UntypedVec::swap_move_element_to_other_vec",U)],
 [("archetypes","one table per component set",W),("ecs_id_meta","entity -> (table,row)",W),("add_remove_cache","cached table transitions",W)],
 ["World::has_component","StaticQuery::get","World::get_component_mut_dynamic"])

p("C03","Queries visit exactly the matching entities, once each",
 "Iterating any query of at least one column, static, dynamic or column-wise, yields every live entity that has all requested components exactly once and no other entity, pairing each entity with its own component values in the requested positions. The result depends only on the current contents of the world, not on how many component sets, component kinds or entities exist or existed, and a query may be iterated again with the same result and stays exhausted once exhausted.",
 ["histories","inputs"],"all world contents reached by any history, all requested component combinations and access kinds, all arities, all table counts (including beyond one and two bitset words)",
 "Tests query at most two tables with at most three components; more than 64 tables, empty tables, unequal bitset lengths and most arities are never exercised through a world.",
 [S,D,I,W],[("BitsetIterator",I),("StaticQuery::iter",S),("DynQuery::iter / column_iter",D),("Bitsetsss / Bitvec",I)],
 [("archetype_bitset","component -> set of tables having it",W),("entities_bitvec","set of all tables",W)],
 ["World::query","World::query_dynamic","StaticQuery::iter/get","DynQuery::iter/column_iter"])

p("C04","Every component value is destroyed exactly once, at the right time",
 "Every component value moved into a world (or into an entity under construction) is destroyed exactly once: when its component is removed, when its entity is despawned, or when the world (or the abandoned construction) is dropped, and never while it is still reachable. Moving an entity between component sets destroys nothing. Holds for every kind of component, including zero-sized ones with a destructor.",
 ["histories","inputs"],"all histories of operations ending with the world being dropped, all component layouts",
 "Tests check single drops on a raw vector of one or two elements; no test counts destructor calls through a world or for zero-sized types.",
 [U,W,B],[("UntypedVec::pop / swap_remove / Drop",U),("Archetype::despawn",W),("World::remove_component_dynamic",W),("EntityBuilder Drop",B)],
 [("len","element count in bytes or, for ZST, elements",U)],["destructor calls of component types"])

p("C05","Component storage is memory safe for every layout",
 "Every component reference or pointer the world hands out is aligned for its type, lies in live memory owned by the world, and does not overlap any other live component. The world never writes outside its allocations, never touches freed memory, returns each allocation with the layout it was made with, and returns all of its memory when dropped.",
 ["histories","inputs"],"all component sizes and alignments (including zero-sized and over-aligned), all column lengths across growth boundaries, all histories",
 "Tests use u32/u64/u128/f32/&str in columns shorter than the first growth and never look at addresses or allocator traffic.",
 [U,B,W,S,D],[("UntypedVec::realloc / push_raw",U),("EntityBuilder::realloc",B),("World Drop / builder scratch reuse",W)],
 [("data/cap/len","raw buffer of a column",U),("entity_builder_reuse","recycled scratch buffer",W)],
 ["addresses of query results","global allocator calls"])

p("C06","The untyped vector behaves like a typed vector",
 "For every element layout and every sequence of operations, the untyped vector has the same length, contents, order and results as an ordinary typed vector under the same pushes, pops, swap-removals and moves between vectors. Element access returns exactly the in-range elements and nothing out of range, popping an empty vector does nothing and reports so, typed slices work for every layout, and each element is destroyed exactly once.",
 ["histories","inputs"],"all operation sequences on one or two vectors, all element layouts including zero-sized and over-aligned",
 "The eleven tests use two element types, at most five elements, and no zero-sized elements.",
 [U],[("push_raw / pop / swap_remove / swap_move_element_to_other_vec / get_raw / as_slice",U)],
 [("len/cap","byte length and capacity",U)],["UntypedVec public API"])

p("C07","Stale handles are inert",
 "Any operation given a handle that is no longer alive, whether as the entity or as the component, reports absence, does nothing, or panics, and never changes or reveals anything about any live entity, even one that now occupies the same index. This holds for lookups, queries, despawning, adding and removing components, and building entities.",
 ["histories"],"all histories followed by any operation with any dead handle in any role, including indices reused several times",
 "Only double despawn and one stale is_alive are tested; stale handles combined with index reuse and with queries, additions, removals and component roles are not.",
 [E,W,S,D,B],[("Entities::is_alive generation check",E),("liveness guards in World methods",W),("get_entity_meta",W),("lock lookup keyed by full handle",D)],
 [("generations","generation per index",E)],["every World method taking a handle"])

p("C08","Despawning an entity used as a component detaches it everywhere",
 "Despawning an entity that is in use as a component (a tag, a data component, or the entity behind a Rust type) removes that component, destroying its data, from every entity that has it, and changes nothing else about those entities. A later entity that reuses the index starts with no components, is held by nobody as a component, and expects no data; a Rust type whose component entity was despawned can be used again as if new.",
 ["histories"],"all histories in which component entities are despawned while held by zero or more entities in zero or more component sets, and their indices reused in any role",
 "The only test of it returns immediately (feature not implemented at the pinned commit).",
 [W,I,S,D],[("World::despawn",W),("Bitsetsss indexed by entity index",I),("get_or_create_type_id_ecsid",W)],
 [("archetype_bitset","per index, not per generation",W),("type_id_to_ecs_id","type -> component entity",W),("lock_lookup","component -> lock",W)],
 ["World::despawn","queries and lookups afterwards"])

p("C09","Entities are grouped by component set, independent of path",
 "Two live entities are stored in the same group exactly when they have the same set of components, no matter in which order or by which route (spawning with, adding, removing, re-adding) they obtained it. Each entity's reported location is the row at which column iteration finds it, rows in a group are dense, and at most one group exists per component set ever used.",
 ["histories"],"all routes through the lattice of component sets by any number of entities, all numbers of groups and cached transitions",
 "Tests check locations along three fixed routes; equal sets reached by different routes, removal routes and full transition caches are not compared.",
 [W,A,B],[("find_archetype_dynamic / _plus_id / _minus_id",W),("AddRemoveCache and its 4-entry front",W),("ArrayVec::push_start",A)],
 [("archetypes","tables",W),("comp_ids","sorted component ids of a table",W)],
 ["World::get_entity_meta","DynQuery::column_iter"])

p("C10","Live queries never give conflicting access",
 "While a query that can write a component is live, no other query that reads or writes that component is ever granted, and while one that reads it is live no query that writes it is granted; a single query naming a component twice with a write is never granted either. All other combinations of live queries are granted, and closing a query restores access in full.",
 ["histories","schedules"],"all sequences of opening and closing queries of every access pattern (static and dynamic, any arity and position), with any set of them live at once",
 "No test holds two queries at once.",
 [S,D,W,L],[("per-component RwLock guards held by StaticQuery and DynQuery",S),("DynQuery::new",D),("lock_lookup / locks",W)],
 [("locks","one lock per component",W)],["World::query","World::query_dynamic (granted, or blocked/refused)"])

p("C11","Building an entity is all-or-nothing and order-independent",
 "Building produces exactly one entity whose components are exactly those given to the builder, with the given values, whatever their order, number, sizes and alignments, whatever requested capacity, and whatever was built before. Giving the same component twice is refused with a panic that leaves the world's other contents intact; abandoning a builder leaves no entity and no component value behind; one builder can never place its entity or its values twice.",
 ["inputs","histories"],"all ordered component lists over all layouts, all builder capacities, all earlier builds whose scratch space is reused, abandoned and refused builds at every point",
 "Tests build with at most three components in one order, never abandon a builder, never give duplicates, and check only that building with a capacity does not panic.",
 [B,W],[("EntityBuilder::with_dynamic_with_data / build / realloc / Drop",B),("entity_builder_reuse",W)],
 [("data/len/cap","packed scratch bytes of the values given so far",B)],
 ["World::spawn, spawn_with_capacity, spawn_with_component_meta","EntityBuilder"])

p("C12","A panicking component destructor cannot corrupt the world",
 "If the destructor of a component panics while its entity is being despawned, or its component removed, or a query overwrites it, and the panic is caught, then the interrupted structural change has still taken effect, every other entity keeps its exact contents and stays fully usable, and no component value is destroyed twice or remains reachable after destruction.",
 ["fault_sequences","histories"],"all short histories, with a panic injected at each destructor call of a despawn or removal",
 "No test has a panicking destructor.",
 [W,U],[("Archetype::despawn ordering",W),("World::remove_component_dynamic ordering",W),("UntypedVec::pop updates the length first",U)],
 [],["the world after catch_unwind"])

p("C13","A write reaches exactly the component it addresses and persists",
 "Writing through a reference or pointer obtained from a query iteration, a single-entity query or a raw lookup changes exactly that component of exactly that entity, is seen by every later lookup and query, and survives every later move of that entity or its neighbours caused by additions, removals, despawns and spawns.",
 ["histories","inputs"],"all histories mixing writes through every access path with structural operations on the same and other entities",
 "Tests obtain mutable references but never write through them.",
 [S,D,W,U],[("query pointer arithmetic",S),("DynQueryIter offsets",D),("get_component_mut_dynamic",W),("swap_move_element_to_other_vec / swap_remove",U)],
 [],["StaticQuery::iter/get","DynQuery::iter/column_iter","World::get_component_mut_dynamic"])

p("C14","Rust types and component entities correspond one to one",
 "Each Rust type maps to one component entity per world, different types to different ones, unchanged as long as that component entity lives, and the typed and the handle-based interfaces are two views of the same component with the same data. Merely registering a type, or starting but not finishing to use it, gives no entity that component and makes no query fail.",
 ["histories","inputs"],"all orders in which types are first mentioned, through any entry point, before or after other operations and index reuse",
 "Typed and handle-based interfaces are never mixed in a test, and no test registers a type without using it.",
 [W,S,B,L],[("get_or_create_type_id_ecsid",W),("QueryParam::fetch_type",S),("TypeIdHasher",L)],
 [("type_id_to_ecs_id","type -> component entity",W)],["typed and dynamic World APIs side by side"])

p("C15","Churn does not grow the world",
 "Repeating any cycle of operations that returns the world to the same contents and uses the same component sets each time does not grow it without bound: indices of despawned entities are reused, so indices never exceed the peak number of simultaneously live entities, and the memory held by the world stops growing once the cycle has been run a few times. (A cycle that spawns new component entities each time uses new component sets each time; only its indices are bounded.)",
 ["histories"],"all short cycles of spawn/despawn, add/remove, abandoned build and query operations, repeated",
 "Tests never repeat a cycle and never look at memory.",
 [E,W,B,A],[("free list",E),("builder scratch reuse",B),("table reuse through lookup and cached transitions",W)],
 [("despawned","free list",E),("entity_builder_reuse","scratch buffer",W)],["allocator balance","EcsId::uindex","instance_meta.archetype"])

p("C16","Refused operations leave the world unchanged",
 "A call that violates its contract (adding a component the entity already has, removing one it does not have, addressing a dead entity through an asserting call, attaching a component that needs data without data, starting to build with an impossible capacity) is refused with a panic, and after catching it the contents, liveness, grouping and query results of the world are exactly as before the call. Asking for a component an entity lacks answers absent and does not panic.",
 ["histories","inputs"],"all histories followed by any contract-violating call, then any further valid operations",
 "Only one should_panic test exists, and it does not look at the world afterwards.",
 [W,B],[("assertions before mutation in add/remove",W),("with_dynamic size check",B)],
 [],["world contents after catch_unwind"])

p("C17","Worlds are independent",
 "Operations on one world never affect another: with several worlds alive in one program and operations on them interleaved in any order, each world behaves exactly as if it were alone, including which component entity stands for a type and when values are destroyed.",
 ["histories","schedules"],"all interleavings of operation sequences on two worlds, and all orders of dropping them",
 "One test creates a second world, only to borrow a handle from it.",
 [W,B,E],[("all state is owned by World",W)],[],["two worlds side by side"])

p("C18","Behaviour is a function of the history",
 "Running the same sequence of operations twice gives the same handles, the same locations, the same query iteration order and the same order in which component values are destroyed, independent of memory addresses, of other worlds, and of what ran earlier in the process.",
 ["histories"],"all histories, executed repeatedly under different memory layouts",
 "No test runs anything twice.",
 [W,E,B,I],[("deterministic identity hashers, Vec-ordered tables",W)],[],["handles, locations and iteration order of repeated runs"])

out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
