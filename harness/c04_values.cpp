// C04: attribute values and views.
#include <typeinfo>

#include <blackhole/attribute.hpp>
#include <blackhole/attributes.hpp>

#include "bh.hpp"

using namespace bh;
using blackhole::attribute::value_t;
using blackhole::attribute::view_t;

namespace {

// Same type and same value.
bool same(const Val& a, const Val& b) {
    if (a.kind != b.kind) {
        return false;
    }
    if (a.kind == Kind::real) {
        return a.d == b.d;
    }
    return a == b;
}

template<typename T, typename V>
bool holds(const V& v) {
    try {
        blackhole::attribute::get<T>(v);
        return true;
    } catch (const std::bad_cast&) {
        return false;
    }
}

template<typename V>
void check_get(const V& v, const Val& m) {
    CHECK_THAT(holds<typename V::null_type>(v) == (m.kind == Kind::null), "get<null> on " << m.repr());
    CHECK_THAT(holds<typename V::bool_type>(v) == (m.kind == Kind::boolean), "get<bool> on " << m.repr());
    CHECK_THAT(holds<typename V::sint64_type>(v) == (m.kind == Kind::sint), "get<int64> on " << m.repr());
    CHECK_THAT(holds<typename V::uint64_type>(v) == (m.kind == Kind::uint), "get<uint64> on " << m.repr());
    CHECK_THAT(holds<typename V::double_type>(v) == (m.kind == Kind::real), "get<double> on " << m.repr());
    CHECK_THAT(holds<typename V::string_type>(v) == (m.kind == Kind::string), "get<string> on " << m.repr());
    switch (m.kind) {
    case Kind::boolean: CHECK_THAT(blackhole::attribute::get<typename V::bool_type>(v) == m.b, "bool value"); break;
    case Kind::sint: CHECK_THAT(blackhole::attribute::get<typename V::sint64_type>(v) == m.i, "int64 value"); break;
    case Kind::uint: CHECK_THAT(blackhole::attribute::get<typename V::uint64_type>(v) == m.u, "uint64 value"); break;
    case Kind::real: CHECK_THAT(std::memcmp(&blackhole::attribute::get<typename V::double_type>(v), &m.d, 8) == 0, "double value"); break;
    case Kind::string: {
        const auto& s = blackhole::attribute::get<typename V::string_type>(v);
        CHECK_EQ_STR(std::string(s.data(), s.size()), m.s, "string value");
        break;
    }
    default: break;
    }
}

void check(const value_t& v, const Val& m) {
    const auto r = read(v);
    CHECK_THAT(r == m, "value reads as " << r.repr() << " in place of " << m.repr());
    check_get(v, m);
    // A view of a value shows the same.
    const view_t view(v);
    const auto w = read(view);
    CHECK_THAT(w == m, "view of a value reads as " << w.repr() << " in place of " << m.repr());
    check_get(view, m);
}

void check(const view_t& v, const Val& m) {
    const auto r = read(v);
    CHECK_THAT(r == m, "view reads as " << r.repr() << " in place of " << m.repr());
    check_get(v, m);
    CHECK_THAT(holds<view_t::function_type>(v) == (m.kind == Kind::function), "get<function> on " << m.repr());
}

template<typename T>
Val integral(T x) {
    Val v;
    if (std::is_signed<T>::value) {
        v.kind = Kind::sint;
        v.i = static_cast<std::int64_t>(x);
    } else {
        v.kind = Kind::uint;
        v.u = static_cast<std::uint64_t>(x);
    }
    return v;
}

// Builds the same thing through one of the native constructors.
template<typename V, typename T>
void native(T x) {
    check(V(x), integral(x));
    // Implicit conversion, as in attribute lists.
    const V implicit = x;
    check(implicit, integral(x));
}

template<typename V>
void natives(pbt::Case& c, Arena& arena) {
    const auto u = c.u64();
    switch (c.draw(12)) {
    case 0: native<V>(static_cast<char>(u)); break;
    case 1: native<V>(static_cast<short>(u)); break;
    case 2: native<V>(static_cast<int>(u)); break;
    case 3: native<V>(static_cast<long>(u)); break;
    case 4: native<V>(static_cast<long long>(u)); break;
    case 5: native<V>(static_cast<unsigned char>(u)); break;
    case 6: native<V>(static_cast<unsigned short>(u)); break;
    case 7: native<V>(static_cast<unsigned int>(u)); break;
    case 8: native<V>(static_cast<unsigned long>(u)); break;
    case 9: native<V>(static_cast<unsigned long long>(u)); break;
    case 10: {
        Val m;
        m.kind = Kind::boolean;
        m.b = u & 1;
        check(V(m.b), m);
        break;
    }
    case 11: {
        Val m;
        m.kind = Kind::real;
        m.d = c.finite();
        check(V(m.d), m);
        break;
    }
    default: {
        Val m;
        check(V(), m);
        check(V(nullptr), m);
        m.kind = Kind::string;
        m.s = std::string("a\0b", 3);
        check(V("a\0b"), m);
        m.s = c.bytes(60);
        check(V(m.s), m);
    }
    }
}

}  // namespace

PROPERTY(conversions, o.quick = 40000; o.thorough = 600000;
    o.rule = "one native value of every constructor's type with boundary bits, plus a random value of each kind, converted into value "
             "and view and read back through visitors and typed access; non-trivial: always (kinds are counted by label)")
{
    const Foreign foreign(c);
    Arena arena;
    natives<value_t>(c, arena);
    natives<view_t>(c, arena);
    {
        const float f = static_cast<float>(c.finite());
        Val m;
        m.kind = Kind::real;
        m.d = static_cast<double>(f);
        check(view_t(f), m);
    }
    const auto m = gen_value(c);
    const auto view = view_of(m, arena);
    check(view, m);
    if (m.kind != Kind::function) {
        const auto v = value_of(m);
        check(v, m);
        if (m.kind == Kind::string) {
            check(view_t(m.s), m);
        }
    }
    const view_t copy(view);
    check(copy, m);
    CHECK_THAT(copy == view, "a copy differs from its origin: " << m.repr());
    CHECK_THAT(!(copy != view), "a copy differs from its origin: " << m.repr());
    c.note(m.repr());
    c.label(("kind " + std::to_string(static_cast<int>(m.kind))).c_str());
    c.nontrivial();
}

PROPERTY(equality, o.quick = 1600000; o.thorough = 3000000;
    o.rule = "two views, often of close values (same digits in other types, equal text in other buffers), compared; non-trivial: both of "
             "the same kind")
{
    const Foreign foreign(c);
    Arena arena;
    const auto a = gen_value(c);
    Val b = gen_value(c);
    if (c.chance(60)) {
        b = a;
        switch (c.draw(5)) {
        case 0: break;
        case 1: b.i = static_cast<std::int64_t>(static_cast<std::uint64_t>(a.i) + 1); b.u = a.u + 1; b.b = !a.b; b.d = a.d + 1; b.s += "x"; break;
        case 2: if (a.kind == Kind::sint) { b.kind = Kind::uint; b.u = static_cast<std::uint64_t>(a.i); } break;
        case 3: if (!b.s.empty()) { b.s.pop_back(); } break;
        case 4: if (!b.s.empty()) { b.s.back() ^= 1; } break;
        default: if (a.kind == Kind::uint) { b.kind = Kind::real; b.d = static_cast<double>(a.u); } break;
        }
    }
    c.note(a.repr() + " vs " + b.repr());
    const auto va = view_of(a, arena);
    const auto vb = view_of(b, arena);
    // Functions are equal only if they display the same object.
    const bool expected = a.kind == Kind::function ? false : same(a, b);
    CHECK_THAT((va == vb) == expected, "equality of " << a.repr() << " and " << b.repr());
    CHECK_THAT((va != vb) == !expected, "inequality of " << a.repr() << " and " << b.repr());
    CHECK_THAT((vb == va) == expected, "symmetry for " << a.repr() << " and " << b.repr());
    if (a.kind == b.kind) {
        c.nontrivial();
    }
}

PROPERTY(value_history, o.quick = 60000; o.thorough = 800000;
    o.rule = "up to 40 copies, moves, swaps and assignments (self included) across values of different kinds against a model; non-trivial: "
             "an assignment that changed the kind of a live value and a move")
{
    const Foreign foreign(c);
    const std::size_t n = 4;
    std::vector<value_t> values(n);
    std::vector<Val> model(n);
    std::vector<char> known(n, 1);
    unsigned retyped = 0, moved = 0;
    GenOptions o;
    o.functions = false;
    o.string = [](pbt::Case& c) { return c.bytes(60); };
    const auto steps = 2 + c.size(38);
    for (std::size_t s = 0; s < steps; ++s) {
        const auto i = c.draw(n - 1), j = c.draw(n - 1);
        const auto op = c.draw(6);
        c.note("op " + std::to_string(op) + " " + std::to_string(i) + " " + std::to_string(j));
        const auto before = model[i].kind;
        switch (op) {
        case 0: {
            const auto m = gen_value(c, o);
            values[i] = value_of(m);
            retyped += known[i] && before != m.kind;
            model[i] = m;
            known[i] = 1;
            break;
        }
        case 1:
            if (known[j]) {
                values[i] = values[j];
                retyped += known[i] && before != model[j].kind;
                model[i] = model[j];
                known[i] = 1;
            }
            break;
        case 2:
            if (known[j]) {
                values[i] = std::move(values[j]);
                ++moved;
                retyped += known[i] && before != model[j].kind;
                if (i != j) {
                    model[i] = model[j];
                    known[i] = 1;
                    known[j] = 0;
                }
            }
            break;
        case 3:
            if (known[j]) {
                value_t copy(values[j]);
                CHECK_THAT(read(copy) == model[j], "a copy differs");
                values[i] = copy;
                model[i] = model[j];
                known[i] = 1;
            }
            break;
        case 4:
            if (known[j]) {
                value_t taken(std::move(values[j]));
                ++moved;
                CHECK_THAT(read(taken) == model[j], "a moved value differs");
                const auto m = model[j];
                known[j] = 0;
                values[i] = std::move(taken);
                model[i] = m;
                known[i] = 1;
            }
            break;
        case 5:
            std::swap(values[i], values[j]);
            std::swap(model[i], model[j]);
            {
                const char k = known[i];
                known[i] = known[j];
                known[j] = k;
            }
            break;
        default:
            values.emplace_back(values[i]);
            values.pop_back();
        }
        for (std::size_t k = 0; k < n; ++k) {
            if (known[k]) {
                const auto r = read(values[k]);
                CHECK_THAT(r == model[k], "slot " << k << " reads as " << r.repr() << " in place of " << model[k].repr());
            }
        }
    }
    for (std::size_t k = 0; k < n; ++k) {
        if (known[k]) {
            check(values[k], model[k]);
        }
    }
    if (retyped && moved) {
        c.nontrivial();
    }
}

PROPERTY(lists, o.quick = 480000; o.thorough = 600000;
    o.rule = "attribute lists of up to 40 elements (past the inline capacity) built, copied, moved and viewed; non-trivial: more than 16 elements")
{
    const Foreign foreign(c);
    GenOptions o;
    o.functions = false;
    o.max = 40;
    const auto attrs = gen_attrs(c, o);
    auto owned = owned_of(attrs);
    auto copy = owned;
    const auto moved = std::move(owned);
    blackhole::attribute_list list;
    for (const auto& kv : moved) {
        list.emplace_back(kv);
    }
    const blackhole::attribute_list list2(copy.begin(), copy.end());
    blackhole::attribute_pack pack{list};
    const auto r = flatten(pack);
    CHECK_THAT(r == attrs, "list reads as " << repr(r) << " in place of " << repr(attrs));
    CHECK_THAT(list.size() == list2.size(), "sizes differ");
    for (std::size_t i = 0; i < list.size(); ++i) {
        CHECK_THAT(list[i] == list2[i], "views of equal attributes differ");
    }
    if (attrs.size() > 16) {
        c.nontrivial();
    }
}
