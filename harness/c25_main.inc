PROP(classification, 40000, 200000, "the type belongs to at least one category or misses one by a single member") {
    auto &a = RegisterRows::all();
    const Row &r = *a[S.index(a.size())];
    S.note(r.desc);
    S.nontrivial();
    for (auto &v : r.v) if (v.got == v.want || !v.finding || !vf::known_finding(v.finding)) CHECK(v.got == v.want, v.trait << " says " << v.got << " of a type with exactly the members: " << r.desc);
}
