// C03: values are totally ordered per type and equality agrees with the order
#include "hc.h"
#include <cmath>

static int sgn(int x) { return (x > 0) - (x < 0); }

static void agree(const Variant& a, const Variant& b, int want, const char* what)
{
    int c1 = sgn(cali_variant_compare(a.c_variant(), b.c_variant()));
    int c2 = sgn(cali_variant_compare(b.c_variant(), a.c_variant()));
    CHECK(c1 == want, what);
    CHECK(c1 == -c2, "order: swapping the operands swaps the sign");
    CHECK((a < b) == (want < 0) && (a > b) == (want > 0), "order: operators follow the comparison");
}

ENTRY(c03_integers)
{
    uint64_t x = symx_u64("x"), y = symx_u64("y");
    switch (symx_choose(5, "kind")) {
    case 0:
        {
            int64_t a = (int64_t) x, b = (int64_t) y;
            Variant va(cali_make_variant_from_int64(a)), vb(cali_make_variant_from_int64(b));
            agree(va, vb, a < b ? -1 : a > b ? 1 : 0, "order: signed integers");
            CHECK((va == vb) == (a == b), "equality: signed integers");
            symx_reach("int");
            break;
        }
    case 1:
        {
            Variant va(cali_make_variant_from_uint(x)), vb(cali_make_variant_from_uint(y));
            agree(va, vb, x < y ? -1 : x > y ? 1 : 0, "order: unsigned integers");
            CHECK((va == vb) == (x == y), "equality: unsigned integers");
            symx_reach("uint");
            break;
        }
    case 2:
        {
            Variant va(CALI_TYPE_ADDR, &x, 8), vb(CALI_TYPE_ADDR, &y, 8);
            agree(va, vb, x < y ? -1 : x > y ? 1 : 0, "order: addresses");
            CHECK((va == vb) == (x == y), "equality: addresses");
            break;
        }
    case 3:
        {
            symx_assume(x <= 1 && y <= 1);
            Variant va(x == 1), vb(y == 1);
            agree(va, vb, x < y ? -1 : x > y ? 1 : 0, "order: booleans");
            CHECK((va == vb) == (x == y), "equality: booleans");
            break;
        }
    case 4:
        {
            symx_assume(x <= CALI_MAXTYPE && y <= CALI_MAXTYPE);
            Variant va((cali_attr_type) x), vb((cali_attr_type) y);
            agree(va, vb, x < y ? -1 : x > y ? 1 : 0, "order: types");
            CHECK((va == vb) == (x == y), "equality: types");
            break;
        }
    }
}

ENTRY(c03_pointers)
{
    // two pointers into the same allocation, and equality of arbitrary pointers
    uint64_t x = symx_u64("x"), y = symx_u64("y");
    Variant  va(cali_make_variant_from_ptr((void*) x)), vb(cali_make_variant_from_ptr((void*) y));
    int      c1 = sgn(cali_variant_compare(va.c_variant(), vb.c_variant())), c2 = sgn(cali_variant_compare(vb.c_variant(), va.c_variant()));
    CHECK((c1 == 0) == (x == y), "order: pointers compare equal only if they are");
    CHECK(c1 == -c2, "order: pointers, swapped operands");
    CHECK((va == vb) == (x == y), "equality: pointers");
    symx_reach("ptr");
}

ENTRY(c03_doubles)
{
    double a = symx_f64("a"), b = symx_f64("b");
    symx_assume(a == a);
    symx_assume(b == b);
    Variant va(a), vb(b);
    agree(va, vb, a < b ? -1 : a > b ? 1 : 0, "order: doubles");
    symx_reach("double");
}

ENTRY(c03_double_eq)
{
    double a = symx_f64("a"), b = symx_f64("b");
    uint64_t x, y;
    memcpy(&x, &a, 8);
    memcpy(&y, &b, 8);
    CHECK((Variant(a) == Variant(b)) == (x == y), "equality: doubles are equal when they are the same value");
    symx_reach("double");
}

static int ref_strcmp(const SymStr& a, const SymStr& b)
{
    for (size_t i = 0; i < a.n && i < b.n; ++i)
        if ((unsigned char) a.p[i] != (unsigned char) b.p[i])
            return (unsigned char) a.p[i] < (unsigned char) b.p[i] ? -1 : 1;
    return a.n < b.n ? -1 : a.n > b.n ? 1 : 0;
}

ENTRY(c03_strings)
{
    size_t len = symx_param("len", 3);
    cali_attr_type t = symx_choose(2, "blob") ? CALI_TYPE_USR : CALI_TYPE_STRING;
    SymStr a(0, len, "a", t == CALI_TYPE_STRING), b(0, len, "b", t == CALI_TYPE_STRING);
    Variant va(t, a.p, a.n), vb(t, b.p, b.n);
    int want = ref_strcmp(a, b);
    agree(va, vb, want, "order: strings and blobs are ordered byte by byte");
    CHECK((va == vb) == (want == 0), "equality: strings and blobs are equal when all bytes are");
    symx_reach(want == 0 ? "equal" : "different");
}

// making a string value from a C string and from pointer and length gives the same value
ENTRY(c03_string_make)
{
    SymStr  s(0, symx_param("len", 5), "s");
    Variant a(s.p), b(CALI_TYPE_STRING, s.p, s.n);
    CHECK(a == b, "equality: C string and pointer/length form");
    std::string c(s.p);
    Variant d(c.c_str());
    CHECK(d == b, "equality: copies of a string");
    symx_reach("made");
}

// values of different types are ordered by type, consistently, and are never equal
ENTRY(c03_mixed)
{
    int ka = (int) symx_choose(8, "ka"), kb = (int) symx_choose(8, "kb");
    if (ka == kb)
        return;
    Variant a = sym_scalar(ka, "a"), b = sym_scalar(kb, "b"), b2 = sym_scalar(kb, "b2");
    int     c = sgn(cali_variant_compare(a.c_variant(), b.c_variant()));
    CHECK(c != 0 && a != b && !(a == b), "mixed types: never equal");
    CHECK(c == -sgn(cali_variant_compare(b.c_variant(), a.c_variant())), "mixed types: swapped operands");
    CHECK(c == sgn(cali_variant_compare(a.c_variant(), b2.c_variant())), "mixed types: order depends on the types only");
    symx_reach("mixed");
}
