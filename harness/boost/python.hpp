// A stand-in for Boost.Python and Boost.Numpy, used in both builds: just enough of their documented interface for the
// package's sources to register themselves in tables, which the harness calls by the Python names and with Python-like
// values (numbers, text, arrays), converted to whatever the registered function takes.
#ifndef VF_BOOST_PYTHON_HPP
#define VF_BOOST_PYTHON_HPP
#include <boost/noncopyable.hpp>
#include <complex>
#include <cstring>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
typedef long Py_intptr_t;
typedef long Py_ssize_t;
struct PyObject {
    std::string text;
};
namespace vfpy {
enum kind { none, integer, real, text, array, tuple, list, instance };
enum element { f64, f32, c128, c64, i32, i64, other };
struct array_data {  // an array lives as long as the run
    element type;
    int nd;
    long shape[3];
    long strides[3];
    char* bytes;
    std::size_t room;
};
inline int element_size(element e) {
    switch (e) {
        case c128: return 16;
        case f64: case i64: case c64: return 8;
        default: return 4;
    }
}
struct value {
    kind what = none;
    long i    = 0;
    double d  = 0;
    std::string s;
    array_data* a = nullptr;
    std::vector<value> items;
    void* self  = nullptr;
    int clazz = -1;
};
template <typename T> struct element_of { static const element value = other; };
template <> struct element_of<double> { static const element value = f64; };
template <> struct element_of<float> { static const element value = f32; };
template <> struct element_of<std::complex<double>> { static const element value = c128; };
template <> struct element_of<std::complex<float>> { static const element value = c64; };
template <> struct element_of<int> { static const element value = i32; };
template <> struct element_of<long> { static const element value = i64; };
struct invoker {  // something callable by name
    virtual value call(void* self, const value* args, int n) = 0;
};
struct entry {
    std::string module, name;
    invoker* f;
};
struct enumerator {
    std::string type, name;
    long v;
};
struct class_entry {
    std::string module, name;
    int base;
    void* (*upcast)(void*);
    invoker* make;
    const void* tag;
    std::vector<entry> methods;
};
inline std::vector<entry>& functions() {
    static std::vector<entry> t;
    return t;
}
inline std::vector<class_entry>& classes() {
    static std::vector<class_entry> t;
    return t;
}
inline std::vector<enumerator>& enumerators() {
    static std::vector<enumerator> t;
    return t;
}
inline std::string& current() {
    static std::string m("pedsp");
    return m;
}
template <typename T> struct tag_of { static const char tag; };
template <typename T> const char tag_of<T>::tag = 0;
inline array_data* make_array(element e, int nd, const long* shape, bool zero) {
    auto* a = new array_data;
    a->type = e;
    a->nd   = nd;
    long n  = 1;
    for (int k = 0; k < 3; ++k) a->shape[k] = 0, a->strides[k] = 0;
    for (int k = 0; k < nd; ++k) {
        if (shape[k] < 0) throw std::length_error("negative dimensions are not allowed");
        a->shape[k] = shape[k];
        n *= shape[k];
    }
    long stride = element_size(e);
    for (int k = nd - 1; k >= 0; --k) a->strides[k] = stride, stride *= a->shape[k];
    a->room  = (std::size_t) (n * element_size(e));
    a->bytes = (char*) ::operator new(a->room);
    if (zero) std::memset(a->bytes, 0, a->room);
    return a;
}
}  // namespace vfpy
namespace boost { namespace python {
    struct object {
        vfpy::value v;
        object() {}
        explicit object(const vfpy::value& x) : v(x) {}
        template <typename H> explicit object(const H& h) { v.s = h.ptr->text; }
    };
    template <typename T = PyObject> struct handle {
        PyObject* ptr;
        handle(PyObject* p) : ptr(p) {}
    };
    inline PyObject* borrowed(PyObject* p) { return p; }
    struct attribute {
        std::string value;
        attribute operator+(const char* more) const { return attribute{value + more}; }
        template <typename T> const attribute& operator=(const T&) const { return *this; }
    };
    struct scope {
        std::string before;
        scope() : before(vfpy::current()) {}
        scope(const object& o) : before(vfpy::current()) { vfpy::current() = o.v.s; }
        scope(const scope&) = default;
        ~scope() { vfpy::current() = before; }
        attribute attr(const char* name) const {
            if (std::strcmp(name, "__name__") == 0) return attribute{vfpy::current()};
            return attribute();
        }
    };
    template <typename T> struct extract;
    template <> struct extract<std::string> {
        std::string s;
        extract(const attribute& a) : s(a.value) {}
        extract(const object& o) : s(o.v.s) {}
        operator std::string() const { return s; }
        std::string operator()() const { return s; }
    };
    struct tuple {
        vfpy::value v;
        tuple() { v.what = vfpy::tuple; }
    };
    struct list {
        vfpy::value v;
        list() { v.what = vfpy::list; }
        template <typename I> object operator[](I i) const {
            if ((long) i < 0 || (long) i >= (long) v.items.size()) throw std::out_of_range("list index");
            return object(v.items[(std::size_t) i]);
        }
        template <typename T> void append(const T& x);
    };
    inline long len(const list& l) { return (long) l.v.items.size(); }
    struct arg {
        arg(const char*) {}
        arg operator,(const arg& o) const { return o; }
        template <typename T> arg operator=(const T&) const { return *this; }
    };
    template <typename... A> struct init {
        init() {}
        template <typename... X> init(const X&...) {}
    };
    template <typename... B> struct bases {};
    namespace numpy {
        struct dtype {
            vfpy::element e;
            template <typename T> static dtype get_builtin() { return dtype{vfpy::element_of<T>::value}; }
            int get_itemsize() const { return vfpy::element_size(e); }
            bool operator==(const dtype& o) const { return e == o.e; }
            bool operator!=(const dtype& o) const { return e != o.e; }
        };
        inline bool equivalent(const dtype& a, const dtype& b) { return a.e == b.e; }
        struct ndarray {
            enum bitflag { NONE = 0, C_CONTIGUOUS = 1, F_CONTIGUOUS = 2, ALIGNED = 0x100, WRITEABLE = 0x400,
                           BEHAVED = 0x500, CARRAY_RO = 0x101, CARRAY = 0x501 };
            vfpy::array_data* a;
            explicit ndarray(vfpy::array_data* d) : a(d) {}
            int get_nd() const { return a->nd; }
            long shape(int k) const { return a->shape[k]; }
            long strides(int k) const { return a->strides[k]; }
            const long* get_shape() const { return a->shape; }
            const long* get_strides() const { return a->strides; }
            char* get_data() const { return a->bytes; }
            dtype get_dtype() const { return dtype{a->type}; }
            bitflag get_flags() const {
                bool c = true;
                long s = vfpy::element_size(a->type);
                for (int k = a->nd - 1; k >= 0; --k) {
                    if (a->shape[k] > 1 && a->strides[k] != s) c = false;
                    s *= a->shape[k];
                }
                return (bitflag) (c ? CARRAY : BEHAVED);
            }
            ndarray reshape(const tuple& t) const {
                long shape[3], n = 1, was = 1;
                const int nd = (int) t.v.items.size();
                for (int k = 0; k < nd; ++k) shape[k] = t.v.items[(std::size_t) k].i, n *= shape[k];
                for (int k = 0; k < a->nd; ++k) was *= a->shape[k];
                if (n != was) throw std::invalid_argument("cannot reshape array");
                auto* r     = new vfpy::array_data(*a);
                r->nd       = nd;
                long stride = vfpy::element_size(a->type);
                for (int k = nd - 1; k >= 0; --k) r->shape[k] = shape[k], r->strides[k] = stride, stride *= shape[k];
                return ndarray(r);
            }
            ndarray copy() const {
                auto* r = vfpy::make_array(a->type, a->nd, a->shape, false);
                std::memcpy(r->bytes, a->bytes, r->room);
                return ndarray(r);
            }
        };
        template <typename L> ndarray empty(int nd, const L* shape, const dtype& t) {
            long s[3] = {0, 0, 0};
            for (int k = 0; k < nd; ++k) s[k] = (long) shape[k];
            return ndarray(vfpy::make_array(t.e, nd, s, false));
        }
        template <typename L> ndarray zeros(int nd, const L* shape, const dtype& t) {
            long s[3] = {0, 0, 0};
            for (int k = 0; k < nd; ++k) s[k] = (long) shape[k];
            return ndarray(vfpy::make_array(t.e, nd, s, true));
        }
        inline void initialize() {}
    }  // namespace numpy
}}  // namespace boost::python
namespace vfpy {
// from the values of the caller
template <typename T, typename = void> struct from {
    // an instance of a registered class
    static T& get(const value& v) { return *static_cast<T*>(up(v)); }
    static void* up(const value& v) {
        void* p = v.self;
        for (int c = v.clazz; c >= 0; c = classes()[(std::size_t) c].base) {
            if (classes()[(std::size_t) c].tag == &tag_of<T>::tag) return p;
            p = classes()[(std::size_t) c].upcast(p);
        }
        throw std::invalid_argument("argument of another class");
    }
};
template <typename T> struct from<T, typename std::enable_if<std::is_arithmetic<T>::value || std::is_enum<T>::value>::type> {
    static T get(const value& v) {
        if (v.what == real && std::is_floating_point<T>::value) return (T) v.d;
        if (v.what == text && sizeof(T) == 1 && v.s.size() == 1) return (T) v.s[0];
        if (v.what != integer) throw std::invalid_argument("argument type");
        return (T) v.i;
    }
};
template <> struct from<std::string> {
    static std::string get(const value& v) { if (v.what != text) throw std::invalid_argument("argument type"); return v.s; }
};
template <> struct from<const char*> {
    static const char* get(const value& v) { if (v.what != text) throw std::invalid_argument("argument type"); return v.s.c_str(); }
};
template <> struct from<boost::python::numpy::ndarray> {
    static boost::python::numpy::ndarray get(const value& v) {
        if (v.what != array) throw std::invalid_argument("argument type");
        return boost::python::numpy::ndarray(v.a);
    }
};
template <> struct from<boost::python::list> {
    static boost::python::list get(const value& v) {
        if (v.what != list) throw std::invalid_argument("argument type");
        boost::python::list l;
        l.v = v;
        return l;
    }
};
// to the values of the caller
inline value to(const std::string& s) { value v; v.what = text; v.s = s; return v; }
inline value to(const char* s) { value v; if (s) { v.what = text; v.s = s; } return v; }
inline value to(const boost::python::numpy::ndarray& x) { value v; v.what = array; v.a = x.a; return v; }
inline value to(const boost::python::tuple& x) { return x.v; }
inline value to(const boost::python::list& x) { return x.v; }
inline value to(const boost::python::object& x) { return x.v; }
inline value to(const value& x) { return x; }
template <typename T> typename std::enable_if<std::is_floating_point<T>::value, value>::type to(T x) { value v; v.what = real; v.d = (double) x; return v; }
template <typename T> typename std::enable_if<std::is_integral<T>::value || std::is_enum<T>::value, value>::type to(T x) { value v; v.what = integer; v.i = (long) x; return v; }
template <typename T> struct plain { typedef typename std::remove_cv<typename std::remove_reference<T>::type>::type type; };
template <typename R, typename F> struct returning {
    static value call(const F& f) { return to(f()); }
};
template <typename F> struct returning<void, F> {
    static value call(const F& f) { f(); return value(); }
};
template <typename T> struct hold {  // an argument, as an lvalue
    decltype(from<T>::get(std::declval<value>())) x;
    hold(const value& v) : x(from<T>::get(v)) {}
    hold(const value& v, void*) : x(from<T>::get(v)) {}
};
template <typename R, typename... A> struct function : invoker {
    R (*f)(A...);
    function(R (*g)(A...)) : f(g) {}
    template <std::size_t... I> value go(const value* args, std::index_sequence<I...>) {
        std::tuple<hold<typename plain<A>::type>...> held(args[I]...);
        auto run = [&]() -> R { return f(std::get<I>(held).x...); };
        return returning<R, decltype(run)>::call(run);
    }
    value call(void*, const value* args, int n) override {
        if (n != (int) sizeof...(A)) throw std::invalid_argument("number of arguments");
        return go(args, std::index_sequence_for<A...>());
    }
};
template <typename T, typename C, typename R, typename M, typename... A> struct method : invoker {
    M f;
    method(M g) : f(g) {}
    template <std::size_t... I> value go(void* self, const value* args, std::index_sequence<I...>) {
        std::tuple<hold<typename plain<A>::type>...> held(args[I]...);
        C& c     = *static_cast<T*>(self);
        auto run = [&]() -> R { return (c.*f)(std::get<I>(held).x...); };
        return returning<R, decltype(run)>::call(run);
    }
    value call(void* self, const value* args, int n) override {
        if (n != (int) sizeof...(A)) throw std::invalid_argument("number of arguments");
        return go(self, args, std::index_sequence_for<A...>());
    }
};
template <typename T, typename R, typename... A> struct free_method : invoker {  // a function taking the object first
    R (*f)(T&, A...);
    free_method(R (*g)(T&, A...)) : f(g) {}
    template <std::size_t... I> value go(void* self, const value* args, std::index_sequence<I...>) {
        std::tuple<hold<typename plain<A>::type>...> held(args[I]...);
        T& c     = *static_cast<T*>(self);
        auto run = [&]() -> R { return f(c, std::get<I>(held).x...); };
        return returning<R, decltype(run)>::call(run);
    }
    value call(void* self, const value* args, int n) override {
        if (n != (int) sizeof...(A)) throw std::invalid_argument("number of arguments");
        return go(self, args, std::index_sequence_for<A...>());
    }
};
template <typename T, typename... A> struct maker : invoker {
    template <std::size_t... I> value go(const value* args, std::index_sequence<I...>) {
        std::tuple<hold<typename plain<A>::type>...> held(args[I]...);
        value v;
        v.what = instance;
        v.self = new T(std::get<I>(held).x...);
        return v;
    }
    value call(void*, const value* args, int n) override {
        if (n != (int) sizeof...(A)) throw std::invalid_argument("number of arguments");
        return go(args, std::index_sequence_for<A...>());
    }
};
template <typename T, typename B> struct caster {
    static void* up(void* p) { return static_cast<B*>(static_cast<T*>(p)); }
};
inline int class_of(const void* tag) {
    for (std::size_t i = 0; i < classes().size(); ++i)
        if (classes()[i].tag == tag) return (int) i;
    return -1;
}
// the calls of the harness
inline value call(const char* module, const char* name, std::initializer_list<value> args) {
    for (std::size_t i = functions().size(); i-- > 0;)
        if (functions()[i].name == name && functions()[i].module == module) return functions()[i].f->call(nullptr, args.begin(), (int) args.size());
    throw std::logic_error("no such function");
}
inline value make(const char* module, const char* name, std::initializer_list<value> args) {
    for (std::size_t i = 0; i < classes().size(); ++i) {
        if (classes()[i].name == name && classes()[i].module == module) {
            value v = classes()[i].make->call(nullptr, args.begin(), (int) args.size());
            v.clazz = (int) i;
            return v;
        }
    }
    throw std::logic_error("no such class");
}
inline value on(const value& self, const char* name, std::initializer_list<value> args) {
    void* p = self.self;
    for (int c = self.clazz; c >= 0; c = classes()[(std::size_t) c].base) {
        auto& e = classes()[(std::size_t) c];
        for (std::size_t i = e.methods.size(); i-- > 0;)
            if (e.methods[i].name == name) return e.methods[i].f->call(p, args.begin(), (int) args.size());
        if (e.base >= 0) p = e.upcast(p);
    }
    throw std::logic_error("no such method");
}
}  // namespace vfpy
inline PyObject* PyImport_AddModule(const char* name) {
    auto* p = new PyObject;
    p->text = name;
    return p;
}
namespace boost { namespace python {
    template <typename T> inline void list::append(const T& x) { v.items.push_back(vfpy::to(x)); }
    template <typename... A> inline tuple make_tuple(const A&... a) {
        tuple t;
        int unused[] = {0, (t.v.items.push_back(vfpy::to(a)), 0)...};
        (void) unused;
        return t;
    }
    template <typename R, typename... A> inline void def(const char* name, R (*f)(A...)) {
        vfpy::functions().push_back(vfpy::entry{vfpy::current(), name, new vfpy::function<R, A...>(f)});
    }
    template <typename R, typename... A, typename K> inline void def(const char* name, R (*f)(A...), const K&) { def(name, f); }
    template <typename T, typename X1 = void, typename X2 = void, typename X3 = void> struct class_ {
        std::size_t index;
        template <typename... A> class_(const char* name, const init<A...>&) {
            index = vfpy::classes().size();
            vfpy::class_entry e;
            e.module = vfpy::current();
            e.name   = name;
            e.base   = -1;
            e.upcast = nullptr;
            e.make   = new vfpy::maker<T, A...>();
            e.tag    = &vfpy::tag_of<T>::tag;
            base(e, (X1*) nullptr), base(e, (X2*) nullptr), base(e, (X3*) nullptr);
            vfpy::classes().push_back(e);
        }
        static void base(vfpy::class_entry&, const void*) {}
        template <typename B> static void base(vfpy::class_entry& e, bases<B>*) {
            e.base   = vfpy::class_of(&vfpy::tag_of<B>::tag);
            e.upcast = &vfpy::caster<T, B>::up;
        }
        class_& add(const char* name, vfpy::invoker* f) {
            vfpy::classes()[index].methods.push_back(vfpy::entry{"", name, f});
            return *this;
        }
        template <typename R, typename C, typename... A, typename... K> class_& def(const char* name, R (C::*f)(A...), const K&...) {
            return add(name, new vfpy::method<T, C, R, R (C::*)(A...), A...>(f));
        }
        template <typename R, typename C, typename... A, typename... K> class_& def(const char* name, R (C::*f)(A...) const, const K&...) {
            return add(name, new vfpy::method<T, C, R, R (C::*)(A...) const, A...>(f));
        }
        template <typename R, typename... A, typename... K> class_& def(const char* name, R (*f)(T&, A...), const K&...) {
            return add(name, new vfpy::free_method<T, R, A...>(f));
        }
        template <typename R, typename A1, typename... K, typename = typename std::enable_if<!std::is_reference<A1>::value>::type>
        class_& def(const char* name, R (*f)(A1), const K&...) {  // becomes static
            return add(name, new vfpy::function<R, A1>(f));
        }
        class_& staticmethod(const char*) { return *this; }
    };
    template <typename T> struct enum_ {
        std::string name;
        enum_(const char* n) : name(n) {}
        enum_& value(const char* n, T v) {
            vfpy::enumerators().push_back(vfpy::enumerator{name, n, (long) v});
            return *this;
        }
    };
}}  // namespace boost::python
#define BOOST_PYTHON_MODULE(name) inline void vf_module()
#endif
