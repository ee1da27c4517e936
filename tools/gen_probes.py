#!/usr/bin/env python3
"""Generates the program pairs of scenario S10 (sim/probe/pairs/*.rs) from the templates below.

Each template is one program in two versions: `«bad¦ok»`.  The bad one is a program that the compiler has to refuse
(it would alias, dangle or share what must not be shared); the ok one is the nearest program it has to accept.
bin/build.sh asks the compiler about each; the simulator runs those it accepts."""
import os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(ROOT, "sim/probe/pairs")
P = {}


def add(name, body):
    assert name not in P, name
    P[name] = body


NS = "«No¦Yes»"      # not Sync / Sync
SH = "«Loc¦Glo»"     # not Send / Send

# ---- values that must not be shared between threads
add("set_borrow", f"""
    let mut s = ResourceSet::new();
    s.insert({NS}::default());
    let s = &s;
    cx.par(|| s.borrow::<{NS}>().touch(), || s.borrow::<{NS}>().touch());""")
add("set_fetch_read", f"""
    let mut s = ResourceSet::new();
    s.insert({NS}::default());
    let s = &s;
    cx.par(|| s.fetch::<Read<{NS}>>().touch(), || s.fetch::<Read<{NS}>>().touch());""")
add("world_read_resource", f"""
    let mut w = World::new();
    w.insert_resource({NS}::default());
    let w = &w;
    cx.par(|| w.read_resource::<{NS}>().touch(), || w.read_resource::<{NS}>().touch());""")
add("world_fetch_resource", f"""
    let mut w = World::new();
    w.insert_resource({NS}::default());
    let w = &w;
    cx.par(|| w.fetch::<ReadResource<{NS}>>().touch(), || w.fetch::<ReadResource<{NS}>>().touch());""")
add("set_write_shared", f"""
    let mut s = ResourceSet::new();
    s.insert({NS}::default());
    let g = s.borrow_mut::<{NS}>();
    let g = &g;
    cx.par(|| g.touch(), || g.touch());""")
add("set_fetch_write_shared", f"""
    let mut s = ResourceSet::new();
    s.insert({NS}::default());
    let g = s.fetch::<Write<{NS}>>();
    let g = &g;
    cx.par(|| g.touch(), || g.touch());""")
add("world_write_resource_shared", f"""
    let mut w = World::new();
    w.insert_resource({NS}::default());
    let g = w.write_resource::<{NS}>();
    let g = &g;
    cx.par(|| g.touch(), || g.touch());""")
add("make_sync_get", f"""
    let m = MakeSync::new({NS}::default());
    let m = &m;
    cx.par(|| m.get().touch(), || m.get().touch());""")
add("any_set_shared", f"""
    let mut s = AnyComponentSet::new();
    s.insert(CVec({NS}::default()));
    let s = &s;
    cx.par(|| s.get::<CVec<{NS}>>().unwrap().0.touch(), || s.get::<CVec<{NS}>>().unwrap().0.touch());""")
for k in ["Vec", "Dense", "Hash", "FVec", "FHash"]:
    st = {"Vec": "VecStorage<%s>", "Dense": "DenseVecStorage<%s>", "Hash": "HashMapStorage<%s>",
          "FVec": "Flagged<VecStorage<%s>>", "FHash": "Flagged<HashMapStorage<%s>>"}[k]
    low = k.lower()
    add("read_component_" + low, f"""
    let mut w = World::new();
    w.insert_component::<C{k}<{NS}>>();
    let e = w.create_entity();
    w.get_component_mut::<C{k}<{NS}>>().insert(e, C{k}({NS}::default())).unwrap();
    let w = &w;
    let f = || w.read_component::<C{k}<{NS}>>().get(e).unwrap().0.touch();
    cx.par(&f, &f);""")
    add("write_component_shared_" + low, f"""
    let mut w = World::new();
    w.insert_component::<C{k}<{NS}>>();
    let e = w.create_entity();
    w.get_component_mut::<C{k}<{NS}>>().insert(e, C{k}({NS}::default())).unwrap();
    let g = w.write_component::<C{k}<{NS}>>();
    let g = &g;
    cx.par(|| g.get(e).unwrap().0.touch(), || g.get(e).unwrap().0.touch());""")
    add("storage_shared_" + low, f"""
    let mut m = MaskedStorage::<{st % NS}>::default();
    m.insert(3, {NS}::default());
    let m = &m;
    cx.par(|| m.get(3).unwrap().touch(), || m.join().next().unwrap().touch());""".replace("m.join()", "m.join()"))
    add("storage_sent_" + low, f"""
    let r = {SH}::default();
    let mut m = MaskedStorage::<{st % SH}>::default();
    m.insert(3, r.clone());
    cx.par(move || m.get(3).unwrap().touch(), || r.touch());""")
    add("component_sent_" + low, f"""
    let r = {SH}::default();
    let mut w = World::new();
    w.insert_component::<C{k}<{SH}>>();
    let e = w.create_entity();
    w.get_component_mut::<C{k}<{SH}>>().insert(e, C{k}(r.clone())).unwrap();
    let w = &w;
    cx.par(|| w.write_component::<C{k}<{SH}>>().get(e).unwrap().0.touch(), || r.touch());""")
    add("par_join_" + low, f"""
    let c = {NS}::default();
    let mut m = MaskedStorage::<{st % ("&" + NS)}>::default();
    for i in 0..4 {{
        m.insert(i * 70, &c);
    }}
    (&m).par_join().for_each(|x| x.touch());""")
    add("par_join_mut_" + low, f"""
    let c = {NS}::default();
    let mut m = MaskedStorage::<{st % ("&" + NS)}>::default();
    for i in 0..4 {{
        m.insert(i * 70, &c);
    }}
    (&mut m).par_join().for_each(|x| x.touch());""")
    add("par_join_guard_" + low, f"""
    let c = {NS}::default();
    let mut m = MaskedStorage::<{st % ("&" + NS)}>::default();
    for i in 0..4 {{
        m.insert(i * 70, &c);
    }}
    m.guard().par_join().for_each(|mut x| x.get_mut().touch());""")
    add("guard_sent_" + low, f"""
    let c = {NS}::default();
    let mut m = MaskedStorage::<{st % ("&" + NS)}>::default();
    m.insert(3, &c);
    let g = m.get_guard(3).unwrap();
    cx.par(move || g.get().touch(), || c.touch());""")

# ---- values that may be shared but not sent: mutable access must not be taken to another thread
TK = "«Tok¦Atok»"
for k in ["Vec", "Dense", "Hash", "FVec", "FHash"]:
    st = {"Vec": "VecStorage<%s>", "Dense": "DenseVecStorage<%s>", "Hash": "HashMapStorage<%s>",
          "FVec": "Flagged<VecStorage<%s>>", "FHash": "Flagged<HashMapStorage<%s>>"}[k] % TK
    low = k.lower()
    head = f"""
    let (a, mut b) = {TK}::halves();
    let mut m = MaskedStorage::<{st}>::default();"""
    fill = """
    m.insert(3, a);"""
    track = """
    m.set_track_modified(true);""" if k[0] == "F" else ""
    for n, t in [
        ("guard_half_sent", """
    let mut g = m.get_guard(3).unwrap();
    cx.par(move || g.get_mut().poke(), || b.poke());"""),
        ("guard_half_lent", """
    let mut g = m.get_guard(3).unwrap();
    let g = &mut g;
    cx.par(move || g.get_mut().poke(), || b.poke());"""),
        ("mut_ref_half_sent", """
    let g = m.get_mut(3).unwrap();
    cx.par(move || g.poke(), || b.poke());"""),
        ("storage_half_lent", """
    let m = &mut m;
    cx.par(move || m.get_mut(3).unwrap().poke(), || b.poke());"""),
        ("join_half_sent", """
    let mut j = (&mut m).join();
    cx.par(move || j.next().unwrap().poke(), || b.poke());"""),
        ("join_tuple_half_sent", """
    let mut j = ((&mut m), hibitset::BitSetAll).join();
    cx.par(move || j.next().unwrap().0.poke(), || b.poke());"""),
        ("join_maybe_half_sent", """
    let mut j = (&mut m).maybe().join_unconstrained();
    cx.par(move || drop(j.nth(3).unwrap().map(|x| x.poke())), || b.poke());"""),
        ("guard_join_half_sent", """
    let mut j = m.guard().join();
    cx.par(move || j.next().unwrap().get_mut().poke(), || b.poke());"""),
        ("guard_item_half_sent", """
    let mut g = m.guard().join().next().unwrap();
    cx.par(move || g.get_mut().poke(), || b.poke());"""),
        ("guarded_half_sent", """
    let j = m.guard();
    cx.par(move || j.join().next().unwrap().get_mut().poke(), || b.poke());"""),
        ("par_join_half", """
    let b = std::sync::Mutex::new(());
    (&mut m).par_join().for_each(|x| x.poke());"""),
        ("par_guard_half", """
    m.guard().par_join().for_each(|mut x| x.get_mut().poke());"""),
        ("par_iter_half_sent", """
    let j = (&mut m).par_join_unconstrained();
    cx.par(move || j.for_each(|x| x.poke()), || b.poke());"""),
        ("insert_half_elsewhere", """
    let m = &mut m;
    cx.par(move || m.remove(3).unwrap().poke(), || b.poke());"""),
        ("modified_mut_half_sent", """
    let mut j = m.modified_mut().join();
    cx.par(move || j.next().unwrap().unwrap().poke(), || b.poke());"""),
        ("par_modified_mut_half", """
    m.modified_mut().par_join().for_each(|x| x.unwrap().poke());"""),
    ]:
        if "modified" in n and k[0] != "F":
            continue
        add(n + "_" + low, head + track + fill + t)
add("world_half_inserted", f"""
    let (a, mut b) = {TK}::halves();
    let mut w = World::new();
    w.insert_resource(a);
    let w = &w;
    cx.par(|| w.write_resource::<{TK}>().poke(), || b.poke());""")
add("set_half_inserted", f"""
    let (a, mut b) = {TK}::halves();
    let mut w = ResourceSet::new();
    w.insert(a);
    let w = &w;
    cx.par(|| w.borrow_mut::<{TK}>().poke(), || b.poke());""")
add("any_set_half_sent", f"""
    let (a, mut b) = {TK}::halves();
    let mut s = AnyComponentSet::new();
    s.insert(CVec(a));
    cx.par(move || s.get_mut::<CVec<{TK}>>().unwrap().0.poke(), || b.poke());""")
add("make_sync_half_sent", f"""
    let (a, mut b) = {TK}::halves();
    let mut s = MakeSync::new(a);
    cx.par(move || s.get_mut().poke(), || b.poke());""")
# ---- values that must not be sent to another thread
add("set_insert_local", f"""
    let r = {SH}::default();
    let mut s = ResourceSet::new();
    s.insert(r.clone());
    let s = &s;
    cx.par(|| s.borrow_mut::<{SH}>().touch(), || r.touch());""")
add("world_insert_local", f"""
    let r = {SH}::default();
    let mut w = World::new();
    w.insert_resource(r.clone());
    let w = &w;
    cx.par(|| w.write_resource::<{SH}>().touch(), || r.touch());""")
add("set_removed_elsewhere", f"""
    let r = {SH}::default();
    let mut s = ResourceSet::new();
    s.insert(r.clone());
    cx.par(move || drop(s), || r.touch());""")
add("any_set_sent", f"""
    let r = {SH}::default();
    let mut s = AnyComponentSet::new();
    s.insert(CVec(r.clone()));
    cx.par(move || drop(s), || r.touch());""")
add("any_clone_set_sent", f"""
    let r = {SH}::default();
    let mut s = AnyCloneComponentSet::new();
    s.insert(CVec(r.clone()));
    cx.par(move || drop(s), || r.touch());""")
add("make_sync_sent", f"""
    let r = {SH}::default();
    let m = MakeSync::new(r.clone());
    cx.par(move || drop(m), || r.touch());""")
add("make_sync_mut_sent", f"""
    let r = {SH}::default();
    let mut m = MakeSync::new(r.clone());
    let m = &mut m;
    cx.par(move || m.get_mut().touch(), || r.touch());""")
add("par_members_sent", f"""
    let r = {SH}::default();
    let _ = Par::new(Member(r.clone()), Member(r.clone())).run(&RayonPool, ());""")
add("par_list_sent", f"""
    let r = {SH}::default();
    let _ = ParList(vec![Member(r.clone()), Member(r.clone()), Member(r.clone())]).run(&RayonPool, ());""")
add("parallelize_sent", f"""
    let r = {SH}::default();
    let _ = parallelize((0..3).map(|_| Member(r.clone()))).run(&RayonPool, ());""")
add("par_args_sent", f"""
    let r = {NS}::default();
    let _ = Par::new(Toucher, Toucher).run(&RayonPool, &r);""")
add("par_list_args_sent", f"""
    let r = {NS}::default();
    let _ = ParList(vec![Toucher, Toucher]).run(&RayonPool, &r);""")
add("par_pool_shared", f"""
    let p = APool({NS}::default());
    let _ = Par::new(Par::new(idle(&p), idle(&p)), Par::new(idle(&p), idle(&p))).run(&p, ());""")
add("par_list_pool_shared", f"""
    let p = APool({NS}::default());
    let _ = ParList(vec![idle(&p), idle(&p), idle(&p), idle(&p)]).run(&p, ());""")
add("pool_join_sent", f"""
    let r = {SH}::default();
    let (a, b) = (r.clone(), r.clone());
    RayonPool.join(move || a.touch(), move || b.touch());""")

# ---- two references to one value, one of them mutable; or to one that is gone
VEC = "let mut m = MaskedStorage::<VecStorage<u64>>::default();\n    m.insert(3, 7);\n"
FLAG = "let mut m = MaskedStorage::<Flagged<VecStorage<u64>>>::default();\n    m.set_track_modified(true);\n    m.insert(3, 7);\n"
DENSE = "let mut m = MaskedStorage::<DenseVecStorage<u64>>::default();\n    m.insert(3, 7);\n"
HASH = "let mut m = MaskedStorage::<HashMapStorage<u64>>::default();\n    m.insert(3, 7);\n"
W = ("let mut world = World::new();\n    world.insert_component::<CFVec<u64>>();\n    world.insert_component::<CDense<u64>>();\n"
     "    let e = world.create_entity();\n    world.get_component_mut::<CFVec<u64>>().insert(e, CFVec(7)).unwrap();\n"
     "    world.get_component_mut::<CDense<u64>>().insert(e, CDense(7)).unwrap();\n")


def alias(name, setup, a, b, ok=None):
    """hold the references a (shared) and b (mutable) at once / one after the other"""
    add(name, f"""
    {setup}    «let a = {a};
    let b = {b};
    cx.both(a, b);¦{ok or f'''let v = {{
        let a = {a};
        *a
    }};
    let b = {b};
    *b = v;'''}»""")


def alias2(name, setup, a, b):
    add(name, f"""
    {setup}    «let a = {a};
    let b = {b};
    cx.both_mut(a, b);¦{{
        let a = {a};
        *a = *a;
    }}
    let b = {b};
    *b = *b;»""")


G = VEC + "    let mut g = m.get_guard(3).unwrap();\n"
GJ = VEC + "    let mut g = m.guard().join().next().unwrap();\n"
alias("guard_get_get_mut", G, "g.get()", "g.get_mut()")
alias2("guard_get_mut_twice", G, "g.get_mut()", "g.get_mut()")
alias("guard_join_get_get_mut", GJ, "g.get()", "g.get_mut()")
alias2("guard_join_get_mut_twice", GJ, "g.get_mut()", "g.get_mut()")
add("guard_both_threads", f"""
    {VEC}    let mut g = m.get_guard(3).unwrap();
    «let a = g.get();
    let b = g.get_mut();
    cx.par(move || cx.read(a), move || cx.bump(b));¦{{
        let a = g.get();
        cx.par(move || cx.read(a), || cx.read(a));
    }}
    cx.bump(g.get_mut());»""")
for n, s in (("vec", VEC), ("dense", DENSE), ("hash", HASH), ("flag", FLAG)):
    alias("get_get_mut_" + n, s, "m.get(3).unwrap()", "m.get_mut(3).unwrap()")
    alias2("get_mut_twice_" + n, s, "m.get_mut(3).unwrap()", "m.get_mut(3).unwrap()")
    alias("join_get_mut_" + n, s, "(&m).join().next().unwrap()", "m.get_mut(3).unwrap()")
    alias2("join_mut_twice_" + n, s, "(&mut m).join().next().unwrap()", "(&mut m).join().next().unwrap()")
    add("remove_while_read_" + n, f"""
    {s}    let a = m.get(3).unwrap();
    «m.remove(3);
    m.insert(3, 8);
    cx.changed(a, 7);¦cx.read(a);
    m.remove(3);»""")
alias("get_or_insert_get", VEC, "m.get(3).unwrap()", "m.get_or_insert_with(3, || 1)")
alias("slice_mut_slice", DENSE, "&m.as_slice()[0]", "&mut m.as_mut_slice()[0]")
alias2("mut_slice_twice", DENSE, "&mut m.as_mut_slice()[0]", "&mut m.as_mut_slice()[0]")
alias("modified_get_mut", FLAG, "m.modified().join().next().unwrap().unwrap()", "m.get_mut(3).unwrap()")
alias("modified_mut_get", FLAG, "m.get(3).unwrap()", "m.modified_mut().join().next().unwrap().unwrap()")
alias2("modified_mut_twice", FLAG, "m.modified_mut().join().next().unwrap().unwrap()", "m.modified_mut().join().next().unwrap().unwrap()")
add("get_guard_twice", f"""
    {VEC}    «let mut a = m.get_guard(3).unwrap();
    let mut b = m.get_guard(3).unwrap();
    cx.both_mut(a.get_mut(), b.get_mut());¦cx.bump(m.get_guard(3).unwrap().get_mut());
    cx.bump(m.get_guard(3).unwrap().get_mut());»""")
add("guard_twice", f"""
    {VEC}    «let mut a = m.guard().join();
    let mut b = m.guard().join();
    cx.both_mut(a.next().unwrap().get_mut(), b.next().unwrap().get_mut());¦m.guard().join().for_each(|mut g| cx.bump(g.get_mut()));
    m.guard().join().for_each(|mut g| cx.bump(g.get_mut()));»""")
add("guard_and_get", f"""
    {VEC}    «let a = m.get(3).unwrap();
    let mut g = m.get_guard(3).unwrap();
    cx.both(a, g.get_mut());¦cx.read(m.get(3).unwrap());
    cx.bump(m.get_guard(3).unwrap().get_mut());»""")
add("guard_clone", f"""
    {VEC}    let mut a = m.get_guard(3).unwrap();
    «let mut b = a.clone();
    cx.both_mut(a.get_mut(), b.get_mut());¦cx.bump(a.get_mut());»""")
add("guard_copied", f"""
    {VEC}    let mut a = m.get_guard(3).unwrap();
    «let mut b = a;
    cx.both_mut(a.get_mut(), b.get_mut());¦cx.bump(a.get_mut());»""")
add("join_iter_clone", f"""
    {VEC}    let mut a = (&mut m).join();
    «let mut b = a.clone();
    cx.both_mut(a.next().unwrap(), b.next().unwrap());¦cx.bump(a.next().unwrap());»""")
add("guarded_join_copied", f"""
    {VEC}    let a = m.guard();
    «let b = a;
    cx.both_mut(a.join().next().unwrap().get_mut(), b.join().next().unwrap().get_mut());¦cx.bump(a.join().next().unwrap().get_mut());»""")
add("guarded_join_clone", f"""
    {VEC}    let a = m.guard();
    «let b = a.clone();
    cx.both_mut(a.join().next().unwrap().get_mut(), b.join().next().unwrap().get_mut());¦cx.bump(a.join().next().unwrap().get_mut());»""")
add("par_iter_clone", f"""
    {VEC}    let a = (&mut m).par_join();
    «let b = a.clone();
    let mut x: Vec<&mut u64> = a.collect();
    let mut y: Vec<&mut u64> = b.collect();
    cx.both_mut(x.pop().unwrap(), y.pop().unwrap());¦let mut x: Vec<&mut u64> = a.collect();
    cx.bump(x.pop().unwrap());»""")
add("join_tuple_twice", f"""
    {VEC}    «let (a, b) = (&mut m, &mut m).join().next().unwrap();
    cx.both_mut(a, b);¦let (a, b) = (&m, &m).join().next().unwrap();
    cx.read(a);
    cx.read(b);»""")
add("join_tuple_read_write", f"""
    {VEC}    «let (a, b) = (&m, &mut m).join().next().unwrap();
    cx.both(a, b);¦let (a, b) = (&m, &m).join().next().unwrap();
    cx.read(a);
    cx.read(b);»""")
add("join_tuple_maybe", f"""
    {VEC}    «let (a, b) = ((&m).maybe(), &mut m).join().next().unwrap();
    cx.both(a.unwrap(), b);¦let (a, b) = ((&m).maybe(), &m).join().next().unwrap();
    cx.read(a.unwrap());
    cx.read(b);»""")
add("join_tuple_guard", f"""
    {VEC}    «let (mut a, b) = (m.guard(), &mut m).join().next().unwrap();
    cx.both_mut(a.get_mut(), b);¦let (a, b) = (&m, (&m).maybe()).join().next().unwrap();
    cx.read(a);
    cx.read(b.unwrap());»""")
add("insert_while_read", f"""
    {VEC}    let a = m.get(3).unwrap();
    «m.insert(100_000, 1);
    cx.changed(a, 7);¦cx.read(a);
    m.insert(100_000, 1);»""")
add("outlive_storage", f"""
    let a: &u64;
    {VEC}    a = m.get(3).unwrap();
    «drop(m);
    cx.read(a);¦cx.read(a);
    drop(m);»""")
add("join_outlives_storage", f"""
    {VEC}    let mut a = (&m).join();
    «drop(m);
    cx.read(a.next().unwrap());¦cx.read(a.next().unwrap());
    drop(m);»""")
add("guard_outlives_storage", f"""
    {VEC}    let g = m.get_guard(3).unwrap();
    «drop(m);
    cx.read(g.get());¦cx.read(g.get());
    drop(m);»""")
add("raw_storage_replaced", f"""
    {VEC}    let mut other = MaskedStorage::<VecStorage<u64>>::default();
    for i in 0..100 {{
        other.insert(i * 50, i as u64 + 1000);
    }}
    «std::mem::swap(m.raw_storage_mut(), other.raw_storage_mut());¦std::mem::swap(&mut m, &mut other);»
    cx.expect(«other¦m».get(4950).copied(), Some(1099));
    cx.expect(«m¦other».get(3).copied(), Some(7));""")
for n, t in (("flag", "CFVec"), ("dense", "CDense")):
    A = W + f"    let mut m = world.write_component::<{t}<u64>>();\n"
    alias("access_get_get_mut_" + n, A, "&m.get(e).unwrap().0", "&mut m.get_mut(e).unwrap().0")
    alias2("access_get_mut_twice_" + n, A, "&mut m.get_mut(e).unwrap().0", "&mut m.get_mut(e).unwrap().0")
    alias("access_storage_get_mut_" + n, A, "&m.storage().get(e.index()).unwrap().0", "&mut m.get_mut(e).unwrap().0")
    alias2("access_storage_mut_twice_" + n, A, "&mut m.storage_mut().get_mut(e.index()).unwrap().0", "&mut m.get_mut(e).unwrap().0")
    alias("access_join_get_mut_" + n, A, "&(&m).join().next().unwrap().0", "&mut m.get_mut(e).unwrap().0")
    alias2("access_join_mut_twice_" + n, A, "&mut (&mut m).join().next().unwrap().0", "&mut (&mut m).join().next().unwrap().0")
    alias("access_or_insert_" + n, A, "&m.get(e).unwrap().0", "&mut m.get_or_insert_with(e, || panic!()).unwrap().0")
    add("access_guard_twice_" + n, f"""
    {A}    «let mut a = m.get_guard(e).unwrap();
    let mut b = m.get_guard(e).unwrap();
    cx.both_mut(&mut a.get_mut().0, &mut b.get_mut().0);¦cx.bump(&mut m.get_guard(e).unwrap().get_mut().0);
    cx.bump(&mut m.get_guard(e).unwrap().get_mut().0);»""")
    add("access_guard_join_twice_" + n, f"""
    {A}    «let mut a = m.guard().join();
    let mut b = m.guard().join();
    cx.both_mut(&mut a.next().unwrap().get_mut().0, &mut b.next().unwrap().get_mut().0);¦for mut g in m.guard().join() {{
        cx.bump(&mut g.get_mut().0);
    }}»""")
    add("read_component_outlived_" + n, f"""
    {W}    «let a = {{
        let m = world.read_component::<{t}<u64>>();
        m.get(e).unwrap()
    }};
    let mut b = world.write_component::<{t}<u64>>();
    cx.both(a, b.get_mut(e).unwrap());¦{{
        let m = world.read_component::<{t}<u64>>();
        cx.read(&m.get(e).unwrap().0);
    }}
    let mut b = world.write_component::<{t}<u64>>();
    cx.bump(&mut b.get_mut(e).unwrap().0);»""")
    add("read_join_outlived_" + n, f"""
    {W}    «let a = {{
        let m = world.read_component::<{t}<u64>>();
        (&m).join().next().unwrap()
    }};
    let mut b = world.write_component::<{t}<u64>>();
    cx.both(a, b.get_mut(e).unwrap());¦{{
        let m = world.read_component::<{t}<u64>>();
        cx.read(&(&m).join().next().unwrap().0);
    }}
    let mut b = world.write_component::<{t}<u64>>();
    cx.bump(&mut b.get_mut(e).unwrap().0);»""")
    add("write_component_outlived_" + n, f"""
    {W}    «let a = {{
        let mut m = world.write_component::<{t}<u64>>();
        m.get_mut(e).unwrap()
    }};
    let mut b = world.write_component::<{t}<u64>>();
    cx.both_mut(a, b.get_mut(e).unwrap());¦{{
        let mut m = world.write_component::<{t}<u64>>();
        cx.bump(&mut m.get_mut(e).unwrap().0);
    }}
    let mut b = world.write_component::<{t}<u64>>();
    cx.bump(&mut b.get_mut(e).unwrap().0);»""")
    add("read_component_exclusive_" + n, f"""
    {W}    «let a = world.read_component::<{t}<u64>>();
    let mut b = world.get_component_mut::<{t}<u64>>();
    cx.both(a.get(e).unwrap(), b.get_mut(e).unwrap());¦{{
        let a = world.read_component::<{t}<u64>>();
        cx.read(&a.get(e).unwrap().0);
    }}
    let mut b = world.get_component_mut::<{t}<u64>>();
    cx.bump(&mut b.get_mut(e).unwrap().0);»""")
    add("delete_while_read_" + n, f"""
    {W}    {{
        let m = world.read_component::<{t}<u64>>();
        let a = m.get(e).unwrap();
        «let _ = world.delete_entity(e);¦»
        cx.read(&a.0);
    }}
    let _ = world.delete_entity(e);""")
    add("remove_component_while_read_" + n, f"""
    {W}    {{
        let m = world.read_component::<{t}<u64>>();
        let a = m.get(e).unwrap();
        «drop(world.remove_component::<{t}<u64>>());¦»
        cx.read(&a.0);
    }}
    drop(world.remove_component::<{t}<u64>>());""")
add("access_slices_dense", f"""
    {W}    let mut m = world.write_component::<CDense<u64>>();
    «let a = &m.as_slice()[0];
    let b = &mut m.as_mut_slice()[0];
    cx.both(a, b);¦cx.read(&m.as_slice()[0].0);
    cx.bump(&mut m.as_mut_slice()[0].0);»""")
add("access_modified", f"""
    {W}    let mut m = world.write_component::<CFVec<u64>>();
    m.set_track_modified(true);
    m.get_mut(e);
    «let a = m.modified().join().next().unwrap().unwrap();
    let b = m.modified_mut().join().next().unwrap().unwrap();
    cx.both(a, b);¦cx.read(&m.modified().join().next().unwrap().unwrap().0);
    cx.bump(&mut m.modified_mut().join().next().unwrap().unwrap().0);»""")
R = "let mut s = ResourceSet::new();\n    s.insert(7u64);\n"
RW = "let mut s = World::new();\n    s.insert_resource(7u64);\n"
for n, setup, get, put, excl, rem in (
        ("set_borrow", R, "s.borrow::<u64>()", "s.borrow_mut::<u64>()", "s.get_mut::<u64>()", "s.remove::<u64>()"),
        ("set_fetch", R, "s.fetch::<Read<u64>>()", "s.fetch::<Write<u64>>()", "s.get_mut::<u64>()", "s.insert(8u64)"),
        ("world", RW, "s.read_resource::<u64>()", "s.write_resource::<u64>()", "s.get_resource_mut::<u64>()", "s.remove_resource::<u64>()"),
        ("world_fetch", RW, "s.fetch::<ReadResource<u64>>()", "s.fetch::<WriteResource<u64>>()", "s.get_resource_mut::<u64>()", "s.insert_resource(8u64)")):
    add(n + "_read_outlived", f"""
    {setup}    «let a: &u64 = {{
        let g = {get};
        &*g
    }};
    let mut b = {put};
    cx.both(a, &mut *b);¦{{
        let g = {get};
        cx.read(&*g);
    }}
    let mut b = {put};
    cx.bump(&mut *b);»""")
    add(n + "_write_outlived", f"""
    {setup}    «let a: &mut u64 = {{
        let mut g = {put};
        &mut *g
    }};
    let mut b = {put};
    cx.both_mut(a, &mut *b);¦{{
        let mut g = {put};
        cx.bump(&mut *g);
    }}
    let mut b = {put};
    cx.bump(&mut *b);»""")
    add(n + "_exclusive", f"""
    {setup}    «let a = {get};
    let b = {excl};
    cx.both(&*a, b);¦{{
        let a = {get};
        cx.read(&*a);
    }}
    cx.bump({excl});»""")
    add(n + "_removed", f"""
    {setup}    {{
        let a = {get};
        «let _ = {rem};¦»
        cx.changed(&*a, 7);
    }}
    let _ = {rem};""")
add("any_set_get_get_mut", """
    let mut s = AnyComponentSet::new();
    s.insert(CVec(7u64));
    «let a = s.get::<CVec<u64>>().unwrap();
    let b = s.get_mut::<CVec<u64>>().unwrap();
    cx.both(a, b);¦cx.read(&s.get::<CVec<u64>>().unwrap().0);
    cx.bump(&mut s.get_mut::<CVec<u64>>().unwrap().0);»""")
add("any_clone_set_get_get_mut", """
    let mut s = AnyCloneComponentSet::new();
    s.insert(CVec(7u64));
    «let a = s.get::<CVec<u64>>().unwrap();
    let b = s.get_mut::<CVec<u64>>().unwrap();
    cx.both(a, b);¦cx.read(&s.get::<CVec<u64>>().unwrap().0);
    cx.bump(&mut s.get_mut::<CVec<u64>>().unwrap().0);»""")
add("make_sync_get_get_mut", """
    let mut m = MakeSync::new(7u64);
    «let a = m.get();
    let b = m.get_mut();
    cx.both(a, b);¦cx.read(m.get());
    cx.bump(m.get_mut());»""")


def version(body, which):
    return re.sub("«([^¦»]*)¦([^»]*)»", lambda m: m.group(which + 1), body)


def main():
    os.makedirs(OUT, exist_ok=True)
    want = {}
    for n, body in P.items():
        for k, v in (("bad", 0), ("ok", 1)):
            want["%s_%s.rs" % (n, k)] = ("// generated by tools/gen_probes.py\n#![allow(unused)]\nuse crate::cx::*;\n"
                                         "pub fn run(cx: &Cx) {%s\n}\n" % version(body, v))
    assert not any(c in t for t in want.values() for c in "«¦»")
    for f in os.listdir(OUT):
        if f not in want:
            os.unlink(os.path.join(OUT, f))
    for f, t in want.items():
        p = os.path.join(OUT, f)
        if not os.path.exists(p) or open(p).read() != t:
            open(p, "w").write(t)
    print(len(P), "pairs")


if __name__ == "__main__":
    main()
