//@file bounds="constants of float, double and long double; every 32 and 64-bit integer and every double bit pattern compared; ranges of 0..5 elements (thorough 0..7) searched from every position, as pointers, vectors and lists; texts of up to 4 characters" assume="two numbers are equal within 1.2e-7 by definition of the comparison" flags="-std=c++14"

#include "vf.hpp"
#include <edsp/math/constant.hpp>
#include <edsp/meta/equal.hpp>
#include <edsp/meta/contains.hpp>
#include <edsp/meta/advance.hpp>
#include <edsp/meta/size.hpp>
#include <edsp/meta/empty.hpp>
#include <edsp/meta/data.hpp>
#include <edsp/meta/is_null.hpp>
#include <edsp/meta/is_signed.hpp>
#include <edsp/meta/is_unsigned.hpp>
#include <edsp/meta/is_char.hpp>
#include <edsp/meta/is_iterator.hpp>
#include <edsp/meta/iterator.hpp>
#include <edsp/meta/cast.hpp>
#include <list>
#include <forward_list>
#include <memory>
#include <cstring>
namespace {
namespace m = edsp::meta;
template <typename T> void near(T got, double want, const char* key) {
    const double eps = sizeof(T) == 4 ? 6e-8 : 2.3e-16, d = (double) got - want;
    vf_assert(d <= eps * std::fabs(want) && -d <= eps * std::fabs(want), key);
}
template <typename T> void constants() {
    using K = edsp::math::constants<T>;
#define C(name, value) near<T>(K::name, value, "constant: " #name)
    C(half, 0.5);
    C(third, 0.3333333333333333333333);
    C(twothirds, 0.6666666666666666666667);
    C(two_thirds, 0.6666666666666666666667);
    C(sixth, 0.1666666666666666666667);
    C(three_quarters, 0.75);
    C(root_two, 1.414213562373095048802);
    C(root_three, 1.732050807568877293527);
    C(half_root_two, 0.7071067811865475244008);
    C(ln_two, 0.6931471805599453094172);
    C(ln_ln_two, -0.3665129205816643270124);
    C(root_ln_four, 1.177410022515474691012);
    C(one_div_root_two, 0.7071067811865475244008);
    C(pi, 3.141592653589793238463);
    C(half_pi, 1.570796326794896619231);
    C(third_pi, 1.047197551196597746154);
    C(sixth_pi, 0.5235987755982988730771);
    C(two_pi, 6.283185307179586476925);
    C(two_thirds_pi, 2.094395102393195492308);
    C(three_quarters_pi, 2.356194490192344928847);
    C(four_thirds_pi, 4.188790204786390984617);
    C(one_div_two_pi, 0.1591549430918953357689);
    C(one_div_root_two_pi, 0.3989422804014326779399);
    C(root_pi, 1.772453850905516027298);
    C(root_half_pi, 1.253314137315500251208);
    C(root_two_pi, 2.506628274631000502416);
    C(log_root_two_pi, 0.9189385332046727417803);
    C(one_div_root_pi, 0.5641895835477562869481);
    C(root_one_div_pi, 0.5641895835477562869481);
    C(pi_minus_three, 0.1415926535897932384626);
    C(four_minus_pi, 0.8584073464102067615374);
    C(pi_pow_e, 22.45915771836104547343);
    C(pi_sqr, 9.869604401089358618834);
    C(pi_sqr_div_six, 1.644934066848226436472);
    C(pi_cubed, 31.00627668029982017548);
    C(cbrt_pi, 1.46459188756152326302);
    C(one_div_cbrt_pi, 0.682784063255295681467);
    C(e, 2.71828182845904523536);
    C(exp_minus_half, 0.6065306597126334236038);
    C(e_pow_pi, 23.14069263277926900573);
    C(root_e, 1.648721270700128146849);
    C(log10_e, 0.4342944819032518276511);
    C(one_div_log10_e, 2.302585092994045684018);
    C(ln_ten, 2.302585092994045684018);
    C(degree, 0.01745329251994329576924);
    C(radian, 57.2957795130823208768);
    C(sin_one, 0.8414709848078965066525);
    C(cos_one, 0.5403023058681397174009);
    C(sinh_one, 1.175201193643801456882);
    C(cosh_one, 1.543080634815243778478);
    C(phi, 1.618033988749894848205);
    C(ln_phi, 0.4812118250596034474978);
    C(one_div_ln_phi, 2.078086921235027537601);
    C(euler, 0.5772156649015328606065);
    C(one_div_euler, 1.732454714600633473583);
    C(euler_sqr, 0.3331779238077186743184);
    C(zeta_two, 1.644934066848226436472);
    C(zeta_three, 1.2020569031595942854);
    C(catalan, 0.9159655941772190150546);
    C(glaisher, 1.282427129100622636875);
    C(khinchin, 2.68545200106530644531);
    C(extreme_value_skewness, 1.139547099404648657493);
    C(rayleigh_skewness, 0.6311106578189371381919);
    C(rayleigh_kurtosis, 3.245089300687638062849);
    C(rayleigh_kurtosis_excess, 0.2450893006876380628487);
    C(two_div_pi, 0.6366197723675813430755);
    C(root_two_div_pi, 0.7978845608028653558799);
#undef C
}
}
namespace {
template <typename T> void integers() {
    typedef std::numeric_limits<T> L;
    const T a = (T) vf_int("a", (std::int64_t) L::min(), sizeof(T) == 8 ? INT64_MAX : (std::int64_t) L::max());
    const T b = (T) vf_int("b", (std::int64_t) L::min(), sizeof(T) == 8 ? INT64_MAX : (std::int64_t) L::max());
    vf_assert(m::equal(a, b) == (a == b), "integers are equal exactly when they are the same");
}
template <typename It, typename V> void search(It first, It last, int n, const V* x) {
    const int v = (int) vf_int("value", INT32_MIN, INT32_MAX);
    bool there = false;
    for (int i = 0; i < n; ++i) there = there | (x[i] == v);
    vf_assert(m::contains(first, last, v) == there, "contained exactly when one element is the value");
    const int k = (int) vf_pick("steps", 0, n);
    const It at = m::advance(first, k);
    vf_assert((at == last) == (k == n), "advanced to the end after all elements");
    if (k < n) vf_assert(*at == x[k], "advanced by that many elements");
    vf_assert(n == 0 || *first == x[0], "the iterator given stays where it is");
}
#ifdef VF_THOROUGH
constexpr int N = 7;
#else
constexpr int N = 5;
#endif
}
H(c37_constants) {
    constants<float>();
    constants<double>();
    constants<long double>();
}
//@ mode=fp
H(c37_equal_integers) {
    switch (vf_pick("type", 0, 3)) {
        case 0: integers<int>(); break;
        case 1: integers<unsigned>(); break;
        case 2: integers<long>(); break;
        default: integers<unsigned char>();
    }
}
//@ mode=fp
H(c37_equal_double) {
    const double a = vf_anydouble("a"), b = vf_anydouble("b");
    vf_assert(m::equal(a, a) == (a == a), "a number equals itself");
    if (a - b < 1.1e-7 && a - b > -1.1e-7) vf_assert(m::equal(a, b), "close numbers are equal");
    const double d = a - b;
    if (m::equal(a, b)) vf_assert(a == b || (d < 2.4e-7 && d > -2.4e-7), "equal numbers are close");
    if (a == b) vf_assert(m::equal(a, b), "the same number is equal");
}
//@ mode=fp
H(c37_equal_float) {
    const float a = vf_anyfloat("a"), b = vf_anyfloat("b");
    vf_assert(m::equal(a, a) == (a == a), "a number equals itself");
    vf_assert(m::equal(a, b) == m::equal(b, a), "symmetric");
    const float d = a - b;
    if (m::equal(a, b)) vf_assert(a == b || (d < 2.4e-7f && d > -2.4e-7f), "equal numbers are close");
    if (a == b) vf_assert(m::equal(a, b), "the same number is equal");
}
H(c37_search) {
    const int n = (int) vf_pick("n", 0, N);
    std::vector<int> x((size_t) n + 2);
    for (auto& v : x) v = (int) vf_int("x", INT32_MIN, INT32_MAX);
    const int* mid = x.data() + 1;
    switch (vf_pick("kind", 0, 3)) {
        case 0: search(mid, mid + n, n, mid); break;
        case 1: search(x.begin() + 1, x.end() - 1, n, mid); break;
        case 2: { std::list<int> l(mid, mid + n); search(l.begin(), l.end(), n, mid); break; }
        default: { std::forward_list<int> l(mid, mid + n); search(l.begin(), l.end(), n, mid); }
    }
}
H(c37_containers) {
    const int n = (int) vf_pick("n", 0, N);
    std::vector<int> x((size_t) n);
    const std::vector<int>& c = x;
    int a[3] = {1, 2, 3};
    const int b[4] = {4, 5, 6, 7};
    std::initializer_list<int> none = {}, two = {8, 9};
    vf_assert(m::size(x) == (size_t) n && m::size(c) == (size_t) n, "size of a container");
    vf_assert(m::size(a) == 3 && m::size(b) == 4, "size of an array");
    vf_assert(m::empty(x) == (n == 0) && m::empty(c) == (n == 0), "empty exactly without elements");
    vf_assert(!m::empty(a) && m::empty(none) && !m::empty(two), "arrays are never empty, lists without elements are");
    vf_assert(m::data(x) == x.data() && m::data(c) == x.data(), "data of a container");
    vf_assert(m::data(&a[0]) == a && m::data(&b[0]) == b && m::data(two) == two.begin(), "data of a pointer or list");
    vf_assert(!m::is_null(a) && !m::is_null(two), "arrays are never null");
    const int* p = vf_pick("null", 0, 1) ? nullptr : a;
    vf_assert(m::is_null(p) == (p == nullptr), "null exactly when it points nowhere");
    std::unique_ptr<int> u(p ? new int(3) : nullptr);
    std::shared_ptr<int> s(p ? new int(4) : nullptr);
    vf_assert(m::is_null(u) == (p == nullptr) && m::is_null(s) == (p == nullptr), "smart pointers are null like plain ones");
}
H(c37_text_null) {
    const int n = (int) vf_pick("length", 0, 4);
    std::string t((size_t) n, 'x');
    for (auto& c : t) c = (char) vf_int("c", 1, 127);
    vf_assert(m::is_null(t.c_str()) == (n == 0), "a text is null without characters");
    vf_assert(m::is_null(static_cast<const char*>(nullptr)), "no text is null");
}
H(c37_traits) {
    vf_assert(m::is_signed<int>::value && m::is_signed<signed char>::value && m::is_signed<double>::value && !m::is_signed<unsigned>::value && !m::is_signed<int*>::value, "signed types");
    vf_assert(m::is_unsigned<unsigned>::value && m::is_unsigned<unsigned long>::value && !m::is_unsigned<int>::value && !m::is_unsigned<float>::value && !m::is_unsigned<std::string>::value, "unsigned types");
    vf_assert(m::is_char<char>::value && m::is_char<wchar_t>::value && !m::is_char<int>::value && !m::is_char<char*>::value, "character types");
    vf_assert(m::is_iterator<int*>::value && m::is_iterator<std::vector<int>::iterator>::value && m::is_iterator<std::list<int>::const_iterator>::value && !m::is_iterator<int>::value && !m::is_iterator<std::string>::value, "iterators");
    vf_assert(m::is_random_access_iterator_v<int*> && m::is_bidirectional_iterator_v<std::list<int>::iterator> && m::is_forward_iterator_v<std::forward_list<int>::iterator> && !m::is_forward_iterator_v<int*>, "kinds of iterators");
    vf_assert(std::is_same<m::value_type_t<std::vector<float>::iterator>, float>::value && std::is_same<m::diff_type_t<int*>, std::ptrdiff_t>::value, "type of the elements");
}
