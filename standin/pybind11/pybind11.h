// A stand-in for the part of pybind11 that python/bindings.cpp uses, over the CPython API: same names, same overload
// resolution (a pass without conversions, then one with), same casters, same return value policies and lifetimes.
#pragma once
#include <Python.h>

#include <array>
#include <cmath>
#include <cstdint>
#include <functional>
#include <iterator>
#include <limits>
#include <memory>
#include <optional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <unordered_map>
#include <utility>
#include <vector>

namespace pybind11
{
enum class return_value_policy
{
    automatic,
    automatic_reference,
    take_ownership,
    copy,
    move,
    reference,
    reference_internal
};

// ---------------------------------------------------------------- handles
class accessor;
class object;
class handle
{
  public:
    handle() = default;
    handle(PyObject *p) : m_ptr(p) {}
    PyObject *ptr() const { return m_ptr; }
    bool is_none() const { return m_ptr == Py_None; }
    explicit operator bool() const { return m_ptr != nullptr; }
    template <class T> T cast() const;
    accessor attr(const char *name) const;
    template <class... A> object operator()(A &&...a) const;
    const handle &inc_ref() const
    {
        Py_XINCREF(m_ptr);
        return *this;
    }
    const handle &dec_ref() const
    {
        Py_XDECREF(m_ptr);
        return *this;
    }
    bool is(handle o) const { return m_ptr == o.m_ptr; }

  protected:
    PyObject *m_ptr = nullptr;
};

class error_already_set : public std::exception
{
  public:
    error_already_set() { PyErr_Fetch(&type, &value, &trace); }
    error_already_set(const error_already_set &o) : type(o.type), value(o.value), trace(o.trace)
    {
        Py_XINCREF(type);
        Py_XINCREF(value);
        Py_XINCREF(trace);
    }
    ~error_already_set() override
    {
        Py_XDECREF(type);
        Py_XDECREF(value);
        Py_XDECREF(trace);
    }
    void restore() const
    {
        Py_XINCREF(type);
        Py_XINCREF(value);
        Py_XINCREF(trace);
        PyErr_Restore(type, value, trace);
    }
    const char *what() const noexcept override { return "a Python exception"; }

  private:
    PyObject *type = nullptr, *value = nullptr, *trace = nullptr;
};

#define VERIF_PY_EXCEPTION(name, base)                                                                                         \
    struct name : std::runtime_error                                                                                           \
    {                                                                                                                          \
        using std::runtime_error::runtime_error;                                                                               \
        name() : name("") {}                                                                                                   \
        void set_error() const { PyErr_SetString(base, what()); }                                                              \
    };
VERIF_PY_EXCEPTION(stop_iteration, PyExc_StopIteration)
VERIF_PY_EXCEPTION(index_error, PyExc_IndexError)
VERIF_PY_EXCEPTION(key_error, PyExc_KeyError)
VERIF_PY_EXCEPTION(value_error, PyExc_ValueError)
VERIF_PY_EXCEPTION(type_error, PyExc_TypeError)
VERIF_PY_EXCEPTION(cast_error, PyExc_RuntimeError)
#undef VERIF_PY_EXCEPTION
struct reference_cast_error : cast_error
{
    reference_cast_error() : cast_error("") {}
};

class object : public handle
{
  public:
    object() = default;
    object(const object &o) : handle(o) { Py_XINCREF(m_ptr); }
    object(object &&o) noexcept : handle(o) { o.m_ptr = nullptr; }
    object &operator=(object o)
    {
        std::swap(m_ptr, o.m_ptr);
        return *this;
    }
    ~object() { Py_XDECREF(m_ptr); }
    PyObject *release()
    {
        PyObject *p = m_ptr;
        m_ptr = nullptr;
        return p;
    }
    static object steal(PyObject *p)
    {
        if (!p)
            throw error_already_set();
        object o;
        o.m_ptr = p;
        return o;
    }
    static object borrow(PyObject *p)
    {
        object o;
        o.m_ptr = p;
        Py_XINCREF(p);
        return o;
    }
};

#define VERIF_PY_OBJECT(name, check)                                                                                           \
  public:                                                                                                                      \
    name(const object &o) : object(o) {}                                                                                       \
    name(object &&o) : object(std::move(o)) {}                                                                                 \
    static bool check_(PyObject *p) { return check; }

class bytes : public object
{
    VERIF_PY_OBJECT(bytes, PyBytes_Check(p))
    bytes(const std::string &s) : object(steal(PyBytes_FromStringAndSize(s.data(), (Py_ssize_t)s.size()))) {}
};
class none : public object
{
  public:
    none() : object(borrow(Py_None)) {}
};
class item : public object
{
  public:
    item(object o) : object(std::move(o)) {}
};
// an element or attribute that can be assigned to
class accessor : public object
{
    object of_, key_;
    bool attribute_;

  public:
    accessor(object of, object key, bool attribute)
        : object(attribute ? borrowed_or_null(PyObject_GetAttr(of.ptr(), key.ptr())) : borrowed_or_null(PyObject_GetItem(of.ptr(), key.ptr()))), of_(of), key_(key), attribute_(attribute)
    {
    }
    static object borrowed_or_null(PyObject *p)
    {
        if (!p)
            PyErr_Clear();
        return p ? steal(p) : object();
    }
    template <class T> accessor &operator=(T &&value)
    {
        object v = convert(std::forward<T>(value));
        if (attribute_ ? PyObject_SetAttr(of_.ptr(), key_.ptr(), v.ptr()) : PyObject_SetItem(of_.ptr(), key_.ptr(), v.ptr()))
            throw error_already_set();
        static_cast<object &>(*this) = v;
        return *this;
    }
    template <class T> static object convert(T &&value);
};
class str : public object
{
    VERIF_PY_OBJECT(str, PyUnicode_Check(p))
    str(const char *s = "") : object(steal(PyUnicode_FromString(s))) {}
    str(const std::string &s) : object(steal(PyUnicode_FromStringAndSize(s.data(), (Py_ssize_t)s.size()))) {}
    explicit str(handle h) : object(steal(PyObject_Str(h.ptr()))) {}
    operator std::string() const
    {
        Py_ssize_t n = 0;
        const char *p = PyUnicode_AsUTF8AndSize(m_ptr, &n);
        if (!p)
            throw error_already_set();
        return std::string(p, (size_t)n);
    }
};
class int_ : public object
{
    VERIF_PY_OBJECT(int_, PyLong_Check(p))
    int_(long long v = 0) : object(steal(PyLong_FromLongLong(v))) {}
};
class float_ : public object
{
    VERIF_PY_OBJECT(float_, PyFloat_Check(p))
    float_(double v = 0) : object(steal(PyFloat_FromDouble(v))) {}
};
class bool_ : public object
{
    VERIF_PY_OBJECT(bool_, PyBool_Check(p))
    bool_(bool v = false) : object(borrow(v ? Py_True : Py_False)) {}
};
class dict : public object
{
    VERIF_PY_OBJECT(dict, PyDict_Check(p))
    dict() : object(steal(PyDict_New())) {}
    size_t size() const { return (size_t)PyDict_Size(m_ptr); }
    bool empty() const { return size() == 0; }
    template <class K> bool contains(K &&k) const { return PyDict_Contains(m_ptr, accessor::convert(std::forward<K>(k)).ptr()) == 1; }
    template <class K> accessor operator[](K &&k) const { return accessor(*this, accessor::convert(std::forward<K>(k)), false); }
};
class tuple : public object
{
    VERIF_PY_OBJECT(tuple, PyTuple_Check(p))
    tuple() : object(steal(PyTuple_New(0))) {}
    bool empty() const { return size() == 0; }
    size_t size() const { return (size_t)PyTuple_Size(m_ptr); }
    item operator[](size_t i) const
    {
        PyObject *p = PyTuple_GetItem(m_ptr, (Py_ssize_t)i);
        if (!p)
            throw error_already_set();
        return item(borrow(p));
    }
};
class list : public object
{
    VERIF_PY_OBJECT(list, PyList_Check(p))
    list() : object(steal(PyList_New(0))) {}
    explicit list(size_t n) : object(steal(PyList_New((Py_ssize_t)n)))
    {
        for (size_t i = 0; i < n; i++)
        {
            Py_INCREF(Py_None);
            PyList_SET_ITEM(m_ptr, (Py_ssize_t)i, Py_None);
        }
    }
    size_t size() const { return (size_t)PyList_Size(m_ptr); }
    bool empty() const { return size() == 0; }
    accessor operator[](size_t i) const { return accessor(*this, steal(PyLong_FromSize_t(i)), false); }
    template <class T> void append(T &&v) const
    {
        if (PyList_Append(m_ptr, accessor::convert(std::forward<T>(v)).ptr()))
            throw error_already_set();
    }
};
class sequence : public object
{
    VERIF_PY_OBJECT(sequence, PySequence_Check(p))
    size_t size() const { return (size_t)PySequence_Size(m_ptr); }
    accessor operator[](size_t i) const { return accessor(*this, steal(PyLong_FromSize_t(i)), false); }
};
class slice : public object
{
    VERIF_PY_OBJECT(slice, PySlice_Check(p))
    bool compute(size_t length, size_t *start, size_t *stop, size_t *step, size_t *slicelength) const
    {
        return PySlice_GetIndicesEx(m_ptr, (Py_ssize_t)length, (Py_ssize_t *)start, (Py_ssize_t *)stop, (Py_ssize_t *)step,
                                    (Py_ssize_t *)slicelength) == 0;
    }
};
class iterable : public object
{
    VERIF_PY_OBJECT(iterable, is_iterable(p))
    static bool is_iterable(PyObject *p)
    {
        PyObject *i = PyObject_GetIter(p);
        if (!i)
            PyErr_Clear();
        Py_XDECREF(i);
        return i != nullptr;
    }
};
class function : public object
{
    VERIF_PY_OBJECT(function, PyCallable_Check(p))
};
class set : public object
{
    VERIF_PY_OBJECT(set, PyAnySet_Check(p))
    set() : object(steal(PySet_New(nullptr))) {}
    size_t size() const { return (size_t)PySet_Size(m_ptr); }
    bool empty() const { return size() == 0; }
    template <class T> bool add(T &&v) const { return PySet_Add(m_ptr, accessor::convert(std::forward<T>(v)).ptr()) == 0; }
    template <class T> bool contains(T &&v) const { return PySet_Contains(m_ptr, accessor::convert(std::forward<T>(v)).ptr()) == 1; }
};
class buffer : public object
{
    VERIF_PY_OBJECT(buffer, PyObject_CheckBuffer(p))
};
class iterator : public object
{
    VERIF_PY_OBJECT(iterator, PyIter_Check(p))
};

// ---------------------------------------------------------------- annotations
struct arg_v;
struct arg
{
    const char *name;
    bool convert = true, may_be_none = true;
    constexpr explicit arg(const char *n = nullptr) : name(n) {}
    arg &noconvert(bool on = true)
    {
        convert = !on;
        return *this;
    }
    arg &none(bool on = true)
    {
        may_be_none = on;
        return *this;
    }
    template <class T> arg_v operator=(T &&value) const;
};
struct arg_v
{
    const char *name;
    object value;
    bool convert = true, may_be_none = true;
    arg_v &noconvert(bool on = true)
    {
        convert = !on;
        return *this;
    }
    arg_v &none(bool on = true)
    {
        may_be_none = on;
        return *this;
    }
};
inline namespace literals
{
constexpr arg operator""_a(const char *name, size_t) { return arg(name); }
} // namespace literals
struct doc
{
    const char *value;
    doc(const char *v) : value(v) {}
};
struct gil_scoped_release
{
    PyThreadState *state = PyEval_SaveThread();
    ~gil_scoped_release() { PyEval_RestoreThread(state); }
};
struct gil_scoped_acquire
{
    PyGILState_STATE state = PyGILState_Ensure();
    ~gil_scoped_acquire() { PyGILState_Release(state); }
};
template <class... Guards> struct call_guard
{
};
struct module_local
{
    module_local(bool = true) {}
};
struct dynamic_attr
{
};
struct is_operator
{
};
struct is_method
{
    is_method(handle) {}
};
struct buffer_protocol
{
};
template <size_t Nurse, size_t Patient> struct keep_alive
{
};
template <class... Args> struct init_
{
};
template <class... Args> init_<Args...> init() { return {}; }
template <class F> struct factory_
{
    F make;
};
template <class F, class = std::enable_if_t<!std::is_void<std::decay_t<F>>::value>> factory_<std::decay_t<F>> init(F &&f) { return {std::forward<F>(f)}; }

template <class... Args> struct overload_cast_
{
    template <class R> constexpr auto operator()(R (*f)(Args...)) const { return f; }
    template <class R, class C> constexpr auto operator()(R (C::*f)(Args...), std::false_type = {}) const { return f; }
    template <class R, class C> constexpr auto operator()(R (C::*f)(Args...) const, std::true_type) const { return f; }
};
template <class... Args> constexpr overload_cast_<Args...> overload_cast{};
constexpr std::true_type const_{};

namespace detail
{
// ---------------------------------------------------------------- registered classes and their instances
struct record
{
    PyTypeObject *type = nullptr;
    std::vector<std::function<PyObject *(PyObject *)>> implicit;
};

struct instance
{
    PyObject_HEAD PyObject *weak;
    void *ptr;                 // the C++ object, null before __init__
    std::shared_ptr<void> *own; // null: a reference into something kept alive below
    std::vector<PyObject *> *patients;
};

struct Registry
{
    std::unordered_map<std::type_index, record *> types;
    std::unordered_multimap<const void *, instance *> instances;
};
inline Registry &registry()
{
    static Registry *r = new Registry;
    return *r;
}
inline record *find_record(const std::type_info &t)
{
    auto it = registry().types.find(t);
    return it == registry().types.end() ? nullptr : it->second;
}
inline void bind_instance(instance *i, void *ptr, std::shared_ptr<void> *own)
{
    i->ptr = ptr;
    i->own = own;
    registry().instances.emplace(ptr, i);
}
inline void unbind_instance(instance *i)
{
    auto range = registry().instances.equal_range(i->ptr);
    for (auto it = range.first; it != range.second; ++it)
        if (it->second == i)
        {
            registry().instances.erase(it);
            break;
        }
    auto own = i->own;
    i->own = nullptr;
    i->ptr = nullptr;
    delete own;
}
inline PyObject *instance_new(PyTypeObject *type, PyObject *, PyObject *)
{
    auto *i = (instance *)type->tp_alloc(type, 0);
    if (i)
        i->weak = nullptr, i->ptr = nullptr, i->own = nullptr, i->patients = nullptr;
    return (PyObject *)i;
}
inline int instance_init(PyObject *self, PyObject *, PyObject *)
{
    PyErr_Format(PyExc_TypeError, "%s: No constructor defined!", Py_TYPE(self)->tp_name);
    return -1;
}
inline void instance_dealloc(PyObject *self)
{
    auto *i = (instance *)self;
    PyTypeObject *type = Py_TYPE(self);
    if (i->weak)
        PyObject_ClearWeakRefs(self);
    unbind_instance(i);
    auto *patients = i->patients;
    i->patients = nullptr;
    type->tp_free(self);
    Py_DECREF(type);
    if (patients)
    {
        for (auto *p : *patients)
            Py_DECREF(p);
        delete patients;
    }
}
inline void add_patient(PyObject *nurse, PyObject *patient);

// ---------------------------------------------------------------- temporaries of implicit conversions
struct life_support
{
    std::vector<PyObject *> held;
    life_support *outer;
    static life_support *&top()
    {
        static thread_local life_support *t = nullptr;
        return t;
    }
    life_support() : outer(top()) { top() = this; }
    ~life_support()
    {
        top() = outer;
        for (auto *p : held)
            Py_DECREF(p);
    }
};

// ---------------------------------------------------------------- casters
template <class T> using intrinsic_t = std::remove_cv_t<std::remove_pointer_t<std::remove_reference_t<T>>>;

inline return_value_policy for_lvalue(return_value_policy p)
{
    return p == return_value_policy::automatic || p == return_value_policy::automatic_reference ? return_value_policy::copy : p;
}
template <class T> return_value_policy policy_of_return(return_value_policy p)
{
    return !std::is_lvalue_reference<T>::value && !std::is_pointer<T>::value ? return_value_policy::move : p;
}

template <class T> std::pair<const void *, record *> most_derived(const T *src)
{
    if constexpr (std::is_polymorphic<T>::value)
        if (src)
            if (record *r = find_record(typeid(*src)))
                return {dynamic_cast<const void *>(src), r};
    return {src, find_record(typeid(T))};
}
inline PyObject *existing(const void *ptr, record *r)
{
    auto range = registry().instances.equal_range(ptr);
    for (auto it = range.first; it != range.second; ++it)
        if (Py_TYPE(it->second) == r->type)
        {
            Py_INCREF((PyObject *)it->second);
            return (PyObject *)it->second;
        }
    return nullptr;
}
inline PyObject *no_record(const std::type_info &t)
{
    PyErr_Format(PyExc_TypeError, "Unregistered type : %s", t.name());
    return nullptr;
}

// registered classes
template <class T, class = void> struct caster
{
    void *value = nullptr;
    std::shared_ptr<void> *own = nullptr;
    bool load(handle src, bool convert)
    {
        record *r = find_record(typeid(T));
        if (!r || !src)
            return false;
        if (PyObject_TypeCheck(src.ptr(), r->type))
        {
            auto *i = (instance *)src.ptr();
            value = i->ptr;
            own = i->own;
            return value != nullptr;
        }
        if (src.is_none() && convert)
        {
            value = nullptr;
            return true;
        }
        if (convert)
            for (auto &f : r->implicit)
                if (PyObject *tmp = f(src.ptr()))
                {
                    if (life_support::top())
                        life_support::top()->held.push_back(tmp);
                    if (load(tmp, false))
                        return true;
                }
        return false;
    }
    T &ref()
    {
        if (!value)
            throw reference_cast_error();
        return *static_cast<T *>(value);
    }
    T *pointer() { return static_cast<T *>(value); }

    static PyObject *make(T *ptr, std::shared_ptr<void> *own, record *r, handle parent)
    {
        PyObject *o = instance_new(r->type, nullptr, nullptr);
        if (!o)
            return nullptr;
        bind_instance((instance *)o, const_cast<std::remove_cv_t<T> *>(ptr), own);
        if (parent)
            add_patient(o, parent.ptr());
        return o;
    }
    static PyObject *cast(const T &src, return_value_policy policy, handle parent)
    {
        if (policy == return_value_policy::automatic || policy == return_value_policy::automatic_reference)
            policy = return_value_policy::copy;
        auto md = most_derived(&src);
        record *r = md.second;
        if (!r)
            return no_record(typeid(T));
        if (PyObject *o = existing(md.first, r))
            return o;
        switch (policy)
        {
        case return_value_policy::reference:
            return make(const_cast<T *>(&src), nullptr, r, handle());
        case return_value_policy::reference_internal:
            return make(const_cast<T *>(&src), nullptr, r, parent);
        case return_value_policy::move:
        default:
            if constexpr (std::is_copy_constructible<T>::value)
            {
                std::shared_ptr<T> p(new T(src));
                return make(p.get(), new std::shared_ptr<void>(p), find_record(typeid(T)), handle());
            }
            else
                throw cast_error("return_value_policy = copy, but type is non-copyable!");
        }
    }
    static PyObject *cast(T &&src, return_value_policy, handle)
    {
        record *r = find_record(typeid(T));
        if (!r)
            return no_record(typeid(T));
        std::shared_ptr<T> p(new T(std::move(src)));
        return make(p.get(), new std::shared_ptr<void>(p), r, handle());
    }
    static PyObject *cast_pointer(const T *src, return_value_policy policy, handle parent)
    {
        if (!src)
            Py_RETURN_NONE;
        if (policy != return_value_policy::automatic && policy != return_value_policy::take_ownership)
            return cast(*src, policy, parent);
        auto md = most_derived(src);
        if (!md.second)
            return no_record(typeid(T));
        if (PyObject *o = existing(md.first, md.second))
            return o;
        std::shared_ptr<T> p(const_cast<T *>(src));
        return make(p.get(), new std::shared_ptr<void>(p), md.second, handle());
    }
};

template <class T, class V> struct value_caster
{
    T value{};
    T &ref() { return value; }
    T *pointer() { return &value; }
};

template <class T> struct caster<T, std::enable_if_t<std::is_arithmetic<T>::value && !std::is_same<T, bool>::value && !std::is_same<T, char>::value>> : value_caster<T, void>
{
    using wide = std::conditional_t<std::is_floating_point<T>::value, double,
                                    std::conditional_t<sizeof(T) <= sizeof(long), std::conditional_t<std::is_signed<T>::value, long, unsigned long>,
                                                       std::conditional_t<std::is_signed<T>::value, long long, unsigned long long>>>;
    bool load(handle src, bool convert)
    {
        wide w;
        if (!src)
            return false;
        if constexpr (std::is_floating_point<T>::value)
        {
            if (!convert && !PyFloat_Check(src.ptr()))
                return false;
            w = PyFloat_AsDouble(src.ptr());
        }
        else
        {
            if (PyFloat_Check(src.ptr()) || (!convert && !PyLong_Check(src.ptr()) && !PyIndex_Check(src.ptr())))
                return false;
            PyObject *index = nullptr;
            handle from = src;
            if (!PyLong_Check(src.ptr()))
            {
                index = PyNumber_Index(src.ptr());
                if (!index)
                {
                    PyErr_Clear();
                    if (!convert)
                        return false;
                }
                else
                    from = index;
            }
            if constexpr (std::is_unsigned<T>::value)
                w = (wide)PyLong_AsUnsignedLong(from.ptr());
            else
                w = (wide)PyLong_AsLong(from.ptr());
            Py_XDECREF(index);
        }
        bool err = w == (wide)-1 && PyErr_Occurred();
        bool narrow = false;
        if constexpr (!std::is_floating_point<T>::value)
            narrow = sizeof(wide) != sizeof(T) && w != (wide)(T)w;
        if (err || narrow)
        {
            PyErr_Clear();
            if (err && convert && PyNumber_Check(src.ptr()))
            {
                PyObject *tmp = std::is_floating_point<T>::value ? PyNumber_Float(src.ptr()) : PyNumber_Long(src.ptr());
                PyErr_Clear();
                bool ok = tmp && load(tmp, false);
                Py_XDECREF(tmp);
                return ok;
            }
            return false;
        }
        this->value = (T)w;
        return true;
    }
    static PyObject *cast(T v, return_value_policy, handle)
    {
        if constexpr (std::is_floating_point<T>::value)
            return PyFloat_FromDouble(v);
        else if constexpr (std::is_unsigned<T>::value)
            return PyLong_FromUnsignedLongLong(v);
        else
            return PyLong_FromLongLong(v);
    }
};

template <> struct caster<bool, void> : value_caster<bool, void>
{
    bool load(handle src, bool convert)
    {
        if (src.ptr() == Py_True || src.ptr() == Py_False)
        {
            value = src.ptr() == Py_True;
            return true;
        }
        std::string name = Py_TYPE(src.ptr())->tp_name;
        if (convert || name == "numpy.bool_" || name == "numpy.bool")
        {
            if (src.is_none())
            {
                value = false;
                return true;
            }
            auto *nb = Py_TYPE(src.ptr())->tp_as_number;
            if (nb && nb->nb_bool)
            {
                int r = nb->nb_bool(src.ptr());
                if (r == 0 || r == 1)
                {
                    value = r == 1;
                    return true;
                }
                PyErr_Clear();
            }
        }
        return false;
    }
    static PyObject *cast(bool v, return_value_policy, handle) { return PyBool_FromLong(v); }
};

template <> struct caster<std::string, void> : value_caster<std::string, void>
{
    bool load(handle src, bool)
    {
        if (!src)
            return false;
        if (PyUnicode_Check(src.ptr()))
        {
            Py_ssize_t n = 0;
            const char *s = PyUnicode_AsUTF8AndSize(src.ptr(), &n);
            if (!s)
            {
                PyErr_Clear();
                return false;
            }
            value.assign(s, (size_t)n);
            return true;
        }
        if (PyBytes_Check(src.ptr()))
        {
            value.assign(PyBytes_AS_STRING(src.ptr()), (size_t)PyBytes_GET_SIZE(src.ptr()));
            return true;
        }
        if (PyByteArray_Check(src.ptr()))
        {
            value.assign(PyByteArray_AS_STRING(src.ptr()), (size_t)PyByteArray_GET_SIZE(src.ptr()));
            return true;
        }
        return false;
    }
    static PyObject *cast(const std::string &v, return_value_policy, handle)
    {
        PyObject *s = PyUnicode_DecodeUTF8(v.data(), (Py_ssize_t)v.size(), nullptr);
        if (!s)
            throw error_already_set();
        return s;
    }
};

template <> struct caster<char, void>
{
    std::string text;
    bool load(handle src, bool)
    {
        caster<std::string> c;
        if (!c.load(src, false))
            return false;
        text = c.value;
        return true;
    }
    char one = 0;
    char &ref()
    {
        if (text.empty())
            throw value_error("Cannot convert empty string to a character");
        one = text[0];
        unsigned char a = (unsigned char)text[0];
        if (text.size() == 2 && a >= 0xC2 && a <= 0xC3)
        {
            one = (char)(unsigned char)(((a & 3) << 6) + ((unsigned char)text[1] & 0x3F));
            return one;
        }
        if (text.size() > 1)
            throw value_error("Expected a character, but multi-character string found");
        return one;
    }
    static PyObject *cast(char v, return_value_policy, handle) { return PyUnicode_DecodeLatin1(&v, 1, nullptr); }
    static PyObject *cast(const char *v, return_value_policy, handle) { return PyUnicode_FromString(v); }
};

inline bool is_list_like(handle src)
{
    return src && PySequence_Check(src.ptr()) && !PyUnicode_Check(src.ptr()) && !PyBytes_Check(src.ptr());
}

template <class T, class A> struct caster<std::vector<T, A>, void> : value_caster<std::vector<T, A>, void>
{
    bool load(handle src, bool convert)
    {
        if (!is_list_like(src))
            return false;
        Py_ssize_t n = PySequence_Size(src.ptr());
        if (n < 0)
        {
            PyErr_Clear();
            return false;
        }
        this->value.clear();
        this->value.reserve((size_t)n);
        for (Py_ssize_t i = 0; i < n; i++)
        {
            object it = object::steal(PySequence_GetItem(src.ptr(), i));
            caster<T> c;
            if (!c.load(it, convert))
                return false;
            this->value.push_back(c.ref());
            if (std::is_same<T, std::string>::value)
                continue;
        }
        return true;
    }
    static PyObject *fill(const std::vector<T, A> &v, return_value_policy policy, handle parent)
    {
        PyObject *l = PyList_New((Py_ssize_t)v.size());
        Py_ssize_t i = 0;
        for (auto &&e : v)
        {
            PyObject *o = caster<T>::cast((const T &)e, policy, parent);
            if (!o)
            {
                Py_DECREF(l);
                return nullptr;
            }
            PyList_SET_ITEM(l, i++, o);
        }
        return l;
    }
    static PyObject *cast(const std::vector<T, A> &v, return_value_policy policy, handle parent) { return fill(v, policy, parent); }
    static PyObject *cast(std::vector<T, A> &&v, return_value_policy, handle) { return fill(v, return_value_policy::copy, handle()); }
};

template <class T, size_t N> struct caster<std::array<T, N>, void> : value_caster<std::array<T, N>, void>
{
    bool load(handle src, bool convert)
    {
        if (!src || !PySequence_Check(src.ptr()) || PySequence_Size(src.ptr()) != (Py_ssize_t)N)
        {
            PyErr_Clear();
            return false;
        }
        for (size_t i = 0; i < N; i++)
        {
            object it = object::steal(PySequence_GetItem(src.ptr(), (Py_ssize_t)i));
            caster<T> c;
            if (!c.load(it, convert))
                return false;
            this->value[i] = c.ref();
        }
        return true;
    }
    static PyObject *cast(const std::array<T, N> &v, return_value_policy policy, handle parent)
    {
        PyObject *l = PyList_New((Py_ssize_t)N);
        for (size_t i = 0; i < N; i++)
            PyList_SET_ITEM(l, (Py_ssize_t)i, caster<T>::cast(v[i], policy, parent));
        return l;
    }
};

template <class T> struct caster<std::optional<T>, void> : value_caster<std::optional<T>, void>
{
    bool load(handle src, bool convert)
    {
        if (!src)
            return false;
        if (src.is_none())
            return true;
        caster<T> c;
        if (!c.load(src, convert))
            return false;
        this->value.emplace(c.ref());
        return true;
    }
    static PyObject *cast(const std::optional<T> &v, return_value_policy policy, handle parent)
    {
        if (!v)
            Py_RETURN_NONE;
        return caster<T>::cast(*v, policy, parent);
    }
};

template <class T> struct caster<std::shared_ptr<T>, void> : value_caster<std::shared_ptr<T>, void>
{
    bool load(handle src, bool convert)
    {
        caster<std::remove_cv_t<T>> c;
        if (!c.load(src, convert))
            return false;
        if (!c.value)
        {
            this->value.reset();
            return true;
        }
        if (!c.own)
            throw cast_error("Unable to cast from non-held to held instance (T& to Holder<T>)");
        this->value = std::shared_ptr<T>(*c.own, static_cast<T *>(c.value));
        return true;
    }
    static PyObject *cast(const std::shared_ptr<T> &v, return_value_policy, handle)
    {
        if (!v)
            Py_RETURN_NONE;
        auto md = most_derived(v.get());
        if (!md.second)
            return no_record(typeid(T));
        if (PyObject *o = existing(md.first, md.second))
            return o;
        using U = std::remove_cv_t<T>;
        return caster<U>::make(const_cast<U *>(v.get()), new std::shared_ptr<void>(std::const_pointer_cast<U>(v)), md.second, handle());
    }
};

template <class T> struct caster<T, std::enable_if_t<std::is_base_of<handle, T>::value>>
{
    object value;
    std::optional<T> typed;
    bool load(handle src, bool)
    {
        if (!src)
            return false;
        if constexpr (!std::is_same<T, object>::value && !std::is_same<T, handle>::value)
            if (!T::check_(src.ptr()))
                return false;
        value = object::borrow(src.ptr());
        return true;
    }
    T &ref()
    {
        if constexpr (std::is_same<T, handle>::value)
            typed.emplace(value.ptr());
        else
            typed.emplace(value);
        return *typed;
    }
    static PyObject *cast(const handle &v, return_value_policy, handle)
    {
        Py_XINCREF(v.ptr());
        return v.ptr();
    }
};

template <class R> PyObject *to_python(R &&r, return_value_policy policy, handle parent)
{
    using T = std::remove_reference_t<R>;
    if constexpr (std::is_same<std::decay_t<R>, const char *>::value || std::is_same<std::decay_t<R>, char *>::value)
        return PyUnicode_FromString(r);
    else if constexpr (std::is_pointer<T>::value)
        return caster<intrinsic_t<T>>::cast_pointer(r, policy, parent);
    else if constexpr (std::is_lvalue_reference<R>::value)
        return caster<std::remove_cv_t<T>>::cast(static_cast<const T &>(r), for_lvalue(policy), parent);
    else
        return caster<std::remove_cv_t<T>>::cast(std::move(r), return_value_policy::move, parent);
}

template <class A, class C> decltype(auto) from_python(C &c)
{
    if constexpr (std::is_pointer<std::remove_reference_t<A>>::value)
        return static_cast<std::remove_reference_t<A>>(c.pointer());
    else if constexpr (std::is_rvalue_reference<A>::value)
        return static_cast<A>(c.ref());
    else if constexpr (std::is_lvalue_reference<A>::value)
        return static_cast<A>(c.ref());
    else
        return std::decay_t<A>(c.ref());
}

// ---------------------------------------------------------------- functions
struct argument
{
    std::string name;
    object value;
    bool convert = true, may_be_none = true;
};
struct call
{
    std::vector<PyObject *> args;
    bool convert = false;
    const std::vector<argument> *known = nullptr; // what is said about the arguments, the first of which has this place in it
    size_t first = 0;
    bool allowed(size_t i) const { return !known || i + first >= known->size() || (*known)[i + first].may_be_none || args[i] != Py_None; }
    bool convertible(size_t i) const { return convert && (!known || i + first >= known->size() || (*known)[i + first].convert); }
    handle parent;
};
inline PyObject *try_next() { return reinterpret_cast<PyObject *>(1); }

struct function
{
    std::string name;
    std::function<PyObject *(call &)> impl;
    size_t nargs = 0;
    std::vector<argument> args;
    bool op = false, method = false, ctor = false, setter = false;
    std::shared_ptr<void> (*guard)() = nullptr; // what is held while the C++ function runs
    std::vector<std::pair<size_t, size_t>> alive;
    return_value_policy policy = return_value_policy::automatic;
};
struct overloads
{
    std::vector<std::unique_ptr<function>> all;
    PyMethodDef def{};
    std::string name;
};

inline PyObject *translate()
{
    try
    {
        throw;
    }
    catch (const error_already_set &e)
    {
        e.restore();
    }
    catch (const stop_iteration &e)
    {
        e.set_error();
    }
    catch (const index_error &e)
    {
        e.set_error();
    }
    catch (const key_error &e)
    {
        e.set_error();
    }
    catch (const value_error &e)
    {
        e.set_error();
    }
    catch (const type_error &e)
    {
        e.set_error();
    }
    catch (const cast_error &e)
    {
        e.set_error();
    }
    catch (const std::bad_alloc &e)
    {
        PyErr_SetString(PyExc_MemoryError, e.what());
    }
    catch (const std::domain_error &e)
    {
        PyErr_SetString(PyExc_ValueError, e.what());
    }
    catch (const std::invalid_argument &e)
    {
        PyErr_SetString(PyExc_ValueError, e.what());
    }
    catch (const std::length_error &e)
    {
        PyErr_SetString(PyExc_ValueError, e.what());
    }
    catch (const std::out_of_range &e)
    {
        PyErr_SetString(PyExc_IndexError, e.what());
    }
    catch (const std::range_error &e)
    {
        PyErr_SetString(PyExc_ValueError, e.what());
    }
    catch (const std::overflow_error &e)
    {
        PyErr_SetString(PyExc_OverflowError, e.what());
    }
    catch (const std::exception &e)
    {
        PyErr_SetString(PyExc_RuntimeError, e.what());
    }
    catch (...)
    {
        PyErr_SetString(PyExc_RuntimeError, "Caught an unknown exception!");
    }
    return nullptr;
}

inline PyObject *dispatch(PyObject *capsule, PyObject *args_in, PyObject *kwargs_in)
{
    auto *chain = (overloads *)PyCapsule_GetPointer(capsule, "verif.overloads");
    const size_t given = (size_t)PyTuple_GET_SIZE(args_in);
    const bool overloaded = chain->all.size() > 1;
    try
    {
        for (int pass = overloaded ? 0 : 1; pass < 2; pass++)
            for (auto &f : chain->all)
            {
                if (given > f->nargs || (given < f->nargs && f->args.size() < f->nargs))
                    continue;
                call c;
                c.convert = pass == 1;
                if (!f->args.empty())
                    c.known = &f->args;
                bool bad = false;
                for (size_t i = 0; i < given; i++)
                {
                    if (kwargs_in && i < f->args.size() && !f->args[i].name.empty() && PyDict_GetItemString(kwargs_in, f->args[i].name.c_str()))
                        bad = true;
                    c.args.push_back(PyTuple_GET_ITEM(args_in, (Py_ssize_t)i));
                }
                size_t used = 0;
                for (size_t i = given; i < f->nargs && !bad; i++)
                {
                    PyObject *v = kwargs_in && !f->args[i].name.empty() ? PyDict_GetItemString(kwargs_in, f->args[i].name.c_str()) : nullptr;
                    if (v)
                        used++;
                    else
                        v = f->args[i].value.ptr();
                    if (!v)
                        bad = true;
                    c.args.push_back(v);
                }
                if (bad || (kwargs_in && used != (size_t)PyDict_Size(kwargs_in)))
                    continue;
                if (!c.args.empty())
                    c.parent = c.args[0];
                PyObject *r = nullptr;
                try
                {
                    life_support frame;
                    r = f->impl(c);
                    if (r && r != try_next())
                        for (auto &ka : f->alive)
                            add_patient(ka.first == 0 ? r : c.args[ka.first - 1], ka.second == 0 ? r : c.args[ka.second - 1]);
                }
                catch (const reference_cast_error &)
                {
                    r = try_next();
                }
                if (r != try_next())
                {
                    if (!r && !PyErr_Occurred())
                        PyErr_SetString(PyExc_TypeError, "Unable to convert function return value to a Python type!");
                    return r;
                }
            }
    }
    catch (...)
    {
        return translate();
    }
    if (!chain->all.empty() && chain->all[0]->op)
        Py_RETURN_NOTIMPLEMENTED;
    PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments.", chain->name.c_str());
    return nullptr;
}

template <class... Args, size_t... I> auto load_all(std::tuple<caster<intrinsic_t<Args>>...> &cs, call &c, std::index_sequence<I...>)
{
    bool ok = true;
    bool each[] = {true, (c.allowed(I) && std::get<I>(cs).load(c.args[I], c.convertible(I)))...};
    for (bool b : each)
        ok = ok && b;
    return ok;
}
template <class R, class F, class... Args, size_t... I>
PyObject *run(const function *f, F &fn, std::tuple<caster<intrinsic_t<Args>>...> &cs, call &c, std::index_sequence<I...>, R (*)(Args...))
{
    auto guarded = [&]() -> R
    {
        std::shared_ptr<void> held = f->guard ? f->guard() : nullptr;
        return fn(from_python<Args>(std::get<I>(cs))...);
    };
    if constexpr (std::is_void<R>::value)
    {
        guarded();
        Py_RETURN_NONE;
    }
    else if (f->setter)
    {
        (void)guarded();
        Py_RETURN_NONE;
    }
    else
        return to_python<R>(guarded(), policy_of_return<R>(f->policy), c.parent);
}
template <class F, class R, class... Args> std::unique_ptr<function> wrap(F fn, R (*sig)(Args...))
{
    auto rec = std::make_unique<function>();
    function *self = rec.get();
    rec->nargs = sizeof...(Args);
    rec->impl = [fn, sig, self](call &c) mutable -> PyObject *
    {
        std::tuple<caster<intrinsic_t<Args>>...> cs;
        if (!load_all<Args...>(cs, c, std::index_sequence_for<Args...>{}))
            return try_next();
        return run(self, fn, cs, c, std::index_sequence_for<Args...>{}, sig);
    };
    return rec;
}

template <class F> struct signature : signature<decltype(&F::operator())>
{
};
template <class C, class R, class... A> struct signature<R (C::*)(A...)>
{
    using type = R (*)(A...);
};
template <class C, class R, class... A> struct signature<R (C::*)(A...) const>
{
    using type = R (*)(A...);
};

template <class R, class... A> std::unique_ptr<function> make_function(R (*f)(A...)) { return wrap(f, f); }
template <class C, class R, class... A> std::unique_ptr<function> make_function(R (C::*f)(A...))
{
    return wrap([f](C &c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); }, (R(*)(C &, A...)) nullptr);
}
template <class C, class R, class... A> std::unique_ptr<function> make_function(R (C::*f)(A...) const)
{
    return wrap([f](const C &c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); }, (R(*)(const C &, A...)) nullptr);
}
template <class F, class = std::enable_if_t<std::is_class<F>::value>> std::unique_ptr<function> make_function(F f)
{
    return wrap(std::move(f), (typename signature<F>::type) nullptr);
}

template <class D, class F> F adapt(F f) { return f; }
template <class D, class C, class R, class... A> auto adapt(R (C::*f)(A...)) -> R (D::*)(A...) { return f; }
template <class D, class C, class R, class... A> auto adapt(R (C::*f)(A...) const) -> R (D::*)(A...) const { return f; }

inline void annotate(function &f, const arg &a)
{
    if (f.method && f.args.empty())
        f.args.push_back({"self", object()});
    f.args.push_back({a.name ? a.name : "", object(), a.convert, a.may_be_none});
}
inline void annotate(function &f, const arg_v &a)
{
    if (f.method && f.args.empty())
        f.args.push_back({"self", object()});
    f.args.push_back({a.name ? a.name : "", a.value, a.convert, a.may_be_none});
}
inline void annotate(function &f, const is_operator &) { f.op = true; }
inline void annotate(function &f, const return_value_policy &p) { f.policy = p; }
template <size_t N, size_t P> void annotate(function &f, const keep_alive<N, P> &) { f.alive.emplace_back(N, P); }
inline void annotate(function &, const char *) {}
inline void annotate(function &, const doc &) {}
inline void annotate(function &, const is_method &) {}
template <class... G> void annotate(function &f, const call_guard<G...> &)
{
    f.guard = []() -> std::shared_ptr<void> { return std::make_shared<std::tuple<G...>>(); };
}

inline void free_overloads(PyObject *capsule) { delete (overloads *)PyCapsule_GetPointer(capsule, "verif.overloads"); }
inline PyObject *function_object(std::unique_ptr<function> f, const std::string &name, PyObject *module)
{
    auto *o = new overloads;
    o->name = name;
    o->def.ml_name = o->name.c_str();
    o->def.ml_meth = (PyCFunction)(void (*)())dispatch;
    o->def.ml_flags = METH_VARARGS | METH_KEYWORDS;
    o->all.push_back(std::move(f));
    object capsule = object::steal(PyCapsule_New(o, "verif.overloads", free_overloads));
    return object::steal(PyCFunction_NewEx(&o->def, capsule.ptr(), module)).release();
}
inline overloads *overloads_of(PyObject *f)
{
    if (f && PyInstanceMethod_Check(f))
        f = PyInstanceMethod_GET_FUNCTION(f);
    if (!f || !PyCFunction_Check(f))
        return nullptr;
    PyObject *self = PyCFunction_GetSelf(f);
    if (!self || !PyCapsule_IsValid(self, "verif.overloads"))
        return nullptr;
    return (overloads *)PyCapsule_GetPointer(self, "verif.overloads");
}
inline void must(int rc)
{
    if (rc)
        throw error_already_set();
}
} // namespace detail

template <class T> T handle::cast() const
{
    detail::caster<T> c;
    detail::life_support frame;
    if (!c.load(*this, true))
        throw cast_error(std::string("Unable to cast Python instance of type ") + Py_TYPE(m_ptr)->tp_name + " to C++ type");
    return T(c.ref());
}
template <class T> arg_v arg::operator=(T &&value) const
{
    return arg_v{name, object::steal(detail::to_python<T>(std::forward<T>(value), return_value_policy::automatic, handle())), convert, may_be_none};
}
template <class T> object accessor::convert(T &&value)
{
    using U = std::decay_t<T>;
    if constexpr (std::is_same<U, const char *>::value || std::is_same<U, char *>::value)
        return steal(PyUnicode_FromString(value));
    else
        return steal(detail::to_python<T>(std::forward<T>(value), return_value_policy::automatic_reference, handle()));
}
template <class T, class = std::enable_if_t<!std::is_base_of<handle, std::decay_t<T>>::value>> object cast(T &&value, return_value_policy p = return_value_policy::automatic_reference, handle parent = handle())
{
    return object::steal(detail::to_python<T>(std::forward<T>(value), p, parent));
}
template <class T> T cast(const handle &h) { return h.cast<T>(); }
template <class T> bool isinstance(handle h)
{
    if constexpr (std::is_base_of<handle, T>::value)
        return T::check_(h.ptr());
    else
    {
        auto *r = detail::find_record(typeid(T));
        return r && PyObject_TypeCheck(h.ptr(), r->type);
    }
}
inline size_t len(handle h)
{
    Py_ssize_t n = PyObject_Size(h.ptr());
    if (n < 0)
        throw error_already_set();
    return (size_t)n;
}
template <class T> T reinterpret_borrow(handle h) { return T(object::borrow(h.ptr())); }
template <class T> T reinterpret_steal(handle h) { return T(object::steal(h.ptr())); }
inline str repr(handle h) { return str(object::steal(PyObject_Repr(h.ptr()))); }
inline bool hasattr(handle h, const char *name) { return PyObject_HasAttrString(h.ptr(), name) == 1; }
inline accessor handle::attr(const char *name) const { return accessor(object::borrow(m_ptr), object::steal(PyUnicode_FromString(name)), true); }
template <class... A> object handle::operator()(A &&...a) const
{
    object args[] = {accessor::convert(std::forward<A>(a))..., object()};
    object t = object::steal(PyTuple_New(sizeof...(A)));
    for (size_t i = 0; i < sizeof...(A); i++)
        PyTuple_SET_ITEM(t.ptr(), (Py_ssize_t)i, args[i].release());
    return object::steal(PyObject_CallObject(m_ptr, t.ptr()));
}
// iteration over any Python iterable
struct input_iterator
{
    object it, now;
    input_iterator() = default;
    explicit input_iterator(handle h) : it(object::steal(PyObject_GetIter(h.ptr()))) { ++*this; }
    input_iterator &operator++()
    {
        PyObject *p = PyIter_Next(it.ptr());
        if (!p && PyErr_Occurred())
            throw error_already_set();
        now = p ? object::steal(p) : object();
        return *this;
    }
    handle operator*() const { return now; }
    bool operator!=(const input_iterator &o) const { return now.ptr() != o.now.ptr(); }
};
inline input_iterator begin(const object &o) { return input_iterator(o); }
inline input_iterator end(const object &) { return input_iterator(); }
inline input_iterator begin(const handle &o) { return input_iterator(o); }
inline input_iterator end(const handle &) { return input_iterator(); }
template <class... A> tuple make_tuple(A &&...a)
{
    PyObject *items[] = {detail::to_python<A>(std::forward<A>(a), return_value_policy::automatic_reference, handle())..., nullptr};
    object t = object::steal(PyTuple_New(sizeof...(A)));
    bool ok = true;
    for (size_t i = 0; i < sizeof...(A); i++)
    {
        ok = ok && items[i];
        if (!items[i])
        {
            Py_INCREF(Py_None);
            items[i] = Py_None;
        }
        PyTuple_SET_ITEM(t.ptr(), (Py_ssize_t)i, items[i]);
    }
    if (!ok)
        throw error_already_set();
    return tuple(std::move(t));
}

// ---------------------------------------------------------------- iterators
namespace detail
{
struct iterator_object
{
    PyObject_HEAD std::function<PyObject *()> *next;
    std::vector<PyObject *> *patients;
};
inline PyTypeObject *iterator_type()
{
    static PyTypeObject *t = []
    {
        static PyType_Slot slots[] = {
            {Py_tp_dealloc, (void *)+[](PyObject *self)
             {
                 auto *i = (iterator_object *)self;
                 PyTypeObject *type = Py_TYPE(self);
                 delete i->next;
                 if (i->patients)
                     for (auto *p : *i->patients)
                         Py_DECREF(p);
                 delete i->patients;
                 type->tp_free(self);
                 Py_DECREF(type);
             }},
            {Py_tp_iter, (void *)+[](PyObject *self)
             {
                 Py_INCREF(self);
                 return self;
             }},
            {Py_tp_iternext, (void *)+[](PyObject *self) -> PyObject *
             {
                 try
                 {
                     return (*((iterator_object *)self)->next)();
                 }
                 catch (...)
                 {
                     return translate();
                 }
             }},
            {0, nullptr}};
        static PyType_Spec spec = {"pybind11_builtins.iterator", sizeof(iterator_object), 0, Py_TPFLAGS_DEFAULT, slots};
        return (PyTypeObject *)PyType_FromSpec(&spec);
    }();
    return t;
}
inline PyTypeObject *&base_marker()
{
    static PyTypeObject *t = nullptr;
    return t;
}
inline bool is_instance_type(PyTypeObject *t)
{
    for (auto &kv : registry().types)
        if (PyType_IsSubtype(t, kv.second->type))
            return true;
    return false;
}
inline void add_patient(PyObject *nurse, PyObject *patient)
{
    if (!nurse || !patient || nurse == Py_None || patient == Py_None)
        return;
    std::vector<PyObject *> **list = nullptr;
    if (Py_TYPE(nurse) == iterator_type())
        list = &((iterator_object *)nurse)->patients;
    else if (is_instance_type(Py_TYPE(nurse)))
        list = &((instance *)nurse)->patients;
    if (!list)
        return;
    if (!*list)
        *list = new std::vector<PyObject *>;
    Py_INCREF(patient);
    (*list)->push_back(patient);
}
} // namespace detail

template <return_value_policy Policy = return_value_policy::reference_internal, class It, class End> iterator make_iterator(It first, End last)
{
    auto *i = PyObject_New(detail::iterator_object, detail::iterator_type());
    i->patients = nullptr;
    i->next = new std::function<PyObject *()>(
        [first, last]() mutable -> PyObject *
        {
            if (first == last)
                return nullptr;
            PyObject *o = detail::to_python<decltype(*first)>(*first, Policy, handle());
            ++first;
            return o;
        });
    return iterator(object::steal((PyObject *)i));
}

// ---------------------------------------------------------------- modules and classes
class module_ : public object
{
  public:
    explicit module_(PyObject *borrowed) : object(borrow(borrowed)) {}
    accessor doc() const { return attr("__doc__"); }
    static module_ import(const char *name)
    {
        object m = steal(PyImport_ImportModule(name));
        return module_(m.ptr());
    }
    template <class F, class... X> module_ &def(const char *name, F &&f, const X &...extra)
    {
        auto rec = detail::make_function(std::forward<F>(f));
        (detail::annotate(*rec, extra), ...);
        PyObject *old = PyDict_GetItemString(PyModule_GetDict(m_ptr), name);
        if (auto *chain = detail::overloads_of(old))
        {
            chain->all.push_back(std::move(rec));
            return *this;
        }
        object mod = steal(PyObject_GetAttrString(m_ptr, "__name__"));
        object fn = steal(detail::function_object(std::move(rec), name, mod.ptr()));
        detail::must(PyObject_SetAttrString(m_ptr, name, fn.ptr()));
        return *this;
    }
};

template <class GetState, class SetState> struct pickle_
{
    GetState get;
    SetState set;
};
template <class G, class S> pickle_<G, S> pickle(G g, S s) { return {std::move(g), std::move(s)}; }

namespace detail
{
enum class op_id
{
    eq,
    ne,
    lt,
    le,
    gt,
    ge,
    add,
    sub,
    hash
};
template <op_id> struct op_
{
};
struct self_t
{
};
} // namespace detail

template <class T, class... Options> class class_ : public object
{
    detail::record *rec_ = nullptr;
    object name_;

  public:
    using type = T;
    template <class... Extra> class_(handle scope, const char *name, const Extra &...)
    {
        object mod = steal(PyObject_GetAttrString(scope.ptr(), "__name__"));
        std::string full = std::string(PyUnicode_AsUTF8(mod.ptr())) + "." + name;
        char *kept = strdup(full.c_str());
        static PyMemberDef members[] = {{"__weaklistoffset__", T_PYSSIZET_, offsetof(detail::instance, weak), READONLY_, nullptr},
                                        {nullptr, 0, 0, 0, nullptr}};
        PyType_Slot slots[] = {{Py_tp_new, (void *)detail::instance_new},
                               {Py_tp_init, (void *)detail::instance_init},
                               {Py_tp_dealloc, (void *)detail::instance_dealloc},
                               {Py_tp_members, members},
                               {0, nullptr},
                               {0, nullptr}};
        if constexpr (has_buffer<T>::value)
        {
            slots[4] = {Py_bf_getbuffer, (void *)get_buffer};
        }
        PyType_Spec spec = {kept, sizeof(detail::instance), 0, Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, slots};
        m_ptr = steal(PyType_FromSpec(&spec)).release();
        rec_ = new detail::record;
        rec_->type = (PyTypeObject *)m_ptr;
        if (detail::registry().types.count(typeid(T)))
            throw std::runtime_error(std::string("generic_type: type \"") + name + "\" is already registered!");
        detail::registry().types[typeid(T)] = rec_;
        detail::must(PyObject_SetAttrString(scope.ptr(), name, m_ptr));
        name_ = mod;
    }

    // the buffer protocol, for the vector of characters only
    template <class U, class = void> struct has_buffer : std::false_type
    {
    };
    template <class U> struct has_buffer<U, std::enable_if_t<std::is_same<U, std::vector<char>>::value>> : std::true_type
    {
    };
    static int get_buffer(PyObject *self, Py_buffer *view, int flags)
    {
        auto *v = (std::vector<char> *)((detail::instance *)self)->ptr;
        static char nothing = 0;
        if (!v)
        {
            PyErr_SetString(PyExc_BufferError, "no object");
            return -1;
        }
        int rc = PyBuffer_FillInfo(view, self, v->empty() ? &nothing : v->data(), (Py_ssize_t)v->size(), 0, flags);
        if (rc == 0 && (flags & PyBUF_FORMAT))
            view->format = const_cast<char *>("b");
        return rc;
    }

    void put(const char *name, std::unique_ptr<detail::function> f, bool is_static)
    {
        PyObject *dict = ((PyTypeObject *)m_ptr)->tp_dict;
        PyObject *old = PyDict_GetItemString(dict, name);
        object inner;
        if (old && Py_TYPE(old) == &PyStaticMethod_Type)
        {
            inner = steal(PyObject_GetAttrString(m_ptr, name));
            old = inner.ptr();
        }
        if (auto *chain = detail::overloads_of(old))
        {
            chain->all.push_back(std::move(f));
            return;
        }
        object fn = steal(detail::function_object(std::move(f), name, name_.ptr()));
        object attr = is_static ? steal(PyStaticMethod_New(fn.ptr())) : steal(PyInstanceMethod_New(fn.ptr()));
        detail::must(PyObject_SetAttrString(m_ptr, name, attr.ptr()));
        if (std::string(name) == "__eq__" && !PyDict_GetItemString(dict, "__hash__"))
            detail::must(PyObject_SetAttrString(m_ptr, "__hash__", Py_None));
    }
    template <class F, class... X> class_ &def(const char *name, F &&f, const X &...extra)
    {
        auto rec = detail::make_function(detail::adapt<T>(std::forward<F>(f)));
        rec->method = true;
        (detail::annotate(*rec, extra), ...);
        check_args(*rec, name);
        put(name, std::move(rec), false);
        return *this;
    }
    template <class F, class... X> class_ &def_static(const char *name, F &&f, const X &...extra)
    {
        auto rec = detail::make_function(std::forward<F>(f));
        (detail::annotate(*rec, extra), ...);
        check_args(*rec, name);
        put(name, std::move(rec), true);
        return *this;
    }
    static void check_args(const detail::function &f, const char *name)
    {
        if (!f.args.empty() && f.args.size() != f.nargs)
            throw std::runtime_error(std::string("wrong number of py::arg for ") + name);
    }
    template <class F> class_ &def_constructor(F make, std::unique_ptr<detail::function> shape)
    {
        (void)make;
        put("__init__", std::move(shape), false);
        return *this;
    }
    template <class... A, class... X> class_ &def(const init_<A...> &, const X &...extra)
    {
        return construct([](A... a) -> T * { return create<A...>(std::forward<A>(a)...); }, (T * (*)(A...)) nullptr, extra...);
    }
    template <class F, class... X> class_ &def(const factory_<F> &f, const X &...extra)
    {
        return by_factory(f.make, (typename detail::signature<F>::type) nullptr, extra...);
    }
    template <class F, class R, class... A, class... X> class_ &by_factory(F f, R (*)(A...), const X &...extra)
    {
        return construct(
            [f](A... a) mutable -> std::shared_ptr<T>
            {
                if constexpr (std::is_convertible<R, std::shared_ptr<T>>::value && !std::is_pointer<R>::value)
                    return f(std::forward<A>(a)...);
                else if constexpr (std::is_pointer<R>::value)
                {
                    std::shared_ptr<T> p(f(std::forward<A>(a)...));
                    if (!p)
                        throw type_error("pybind11::init(): factory function returned nullptr");
                    return p;
                }
                else
                    return std::shared_ptr<T>(new T(f(std::forward<A>(a)...)));
            },
            (T * (*)(A...)) nullptr, extra...);
    }
    template <class... A> static T *create(A... a)
    {
        if constexpr (std::is_constructible<T, A...>::value)
            return new T(std::forward<A>(a)...);
        else
            return new T{std::forward<A>(a)...};
    }
    // a method whose first argument is the instance to fill
    template <class F, class... A, class... X> class_ &construct(F make, T *(*)(A...), const X &...extra)
    {
        construct_as("__init__", make, (T * (*)(A...)) nullptr, extra...);
        return *this;
    }
    template <class F, class... A, class... X> void construct_as(const char *name, F make, T *(*)(A...), const X &...extra)
    {
        auto rec = std::make_unique<detail::function>();
        rec->nargs = sizeof...(A) + 1;
        rec->method = true;
        rec->ctor = true;
        detail::record *cls = rec_;
        rec->impl = [make, cls](detail::call &c) mutable -> PyObject *
        {
            if (!PyObject_TypeCheck(c.args[0], cls->type))
                return detail::try_next();
            detail::call rest;
            rest.args.assign(c.args.begin() + 1, c.args.end());
            rest.convert = c.convert;
            rest.known = c.known;
            rest.first = c.first + 1;
            std::tuple<detail::caster<detail::intrinsic_t<A>>...> cs;
            if (!detail::load_all<A...>(cs, rest, std::index_sequence_for<A...>{}))
                return detail::try_next();
            std::shared_ptr<T> p(make_from<A...>(make, cs, std::index_sequence_for<A...>{}));
            auto *i = (detail::instance *)c.args[0];
            if (i->ptr)
                detail::unbind_instance(i);
            detail::bind_instance(i, p.get(), new std::shared_ptr<void>(p));
            Py_RETURN_NONE;
        };
        (detail::annotate(*rec, extra), ...);
        check_args(*rec, name);
        put(name, std::move(rec), false);
    }
    template <class... A, class F, class Cs, size_t... I> static auto make_from(F &make, Cs &cs, std::index_sequence<I...>)
    {
        (void)cs;
        return make(detail::from_python<A>(std::get<I>(cs))...);
    }
    template <class G, class S> class_ &def(const pickle_<G, S> &p)
    {
        def("__getstate__", p.get);
        S set = p.set;
        construct_as("__setstate__", [set](const tuple &t) -> T * { return new T(set(t)); }, (T * (*)(const tuple &)) nullptr);
        return *this;
    }
    template <detail::op_id Id, class... X> class_ &def(const detail::op_<Id> &, const X &...)
    {
        if constexpr (Id == detail::op_id::eq)
            return def("__eq__", [](const T &a, const T &b) { return a == b; }, is_operator());
        else if constexpr (Id == detail::op_id::ne)
            return def("__ne__", [](const T &a, const T &b) { return a != b; }, is_operator());
        else if constexpr (Id == detail::op_id::lt)
            return def("__lt__", [](const T &a, const T &b) { return a < b; }, is_operator());
        else if constexpr (Id == detail::op_id::le)
            return def("__le__", [](const T &a, const T &b) { return a <= b; }, is_operator());
        else if constexpr (Id == detail::op_id::gt)
            return def("__gt__", [](const T &a, const T &b) { return a > b; }, is_operator());
        else if constexpr (Id == detail::op_id::ge)
            return def("__ge__", [](const T &a, const T &b) { return a >= b; }, is_operator());
        else if constexpr (Id == detail::op_id::add)
            return def("__add__", [](const T &a, const T &b) { return a + b; }, is_operator());
        else if constexpr (Id == detail::op_id::sub)
            return def("__sub__", [](const T &a, const T &b) { return a - b; }, is_operator());
        else
            return def("__hash__", [](const T &a) { return std::hash<T>()(a); });
    }

    template <class G, class S, class... X> class_ &def_property(const char *name, const G &get, const S &set, const X &...extra)
    {
        object g = borrow(Py_None), s = borrow(Py_None);
        if constexpr (!std::is_same<G, std::nullptr_t>::value)
        {
            auto rec = detail::make_function(detail::adapt<T>(get));
            rec->policy = return_value_policy::reference_internal;
            (detail::annotate(*rec, extra), ...);
            g = steal(detail::function_object(std::move(rec), name, name_.ptr()));
        }
        if constexpr (!std::is_same<S, std::nullptr_t>::value)
        {
            auto rec = detail::make_function(detail::adapt<T>(set));
            rec->setter = true;
            s = steal(detail::function_object(std::move(rec), name, name_.ptr()));
        }
        object p = steal(PyObject_CallFunctionObjArgs((PyObject *)&PyProperty_Type, g.ptr(), s.ptr(), Py_None, nullptr));
        detail::must(PyObject_SetAttrString(m_ptr, name, p.ptr()));
        return *this;
    }
    template <class G, class... X> class_ &def_property_readonly(const char *name, const G &get, const X &...extra) { return def_property(name, get, nullptr, extra...); }
    template <class C, class D, class... X> class_ &def_readwrite(const char *name, D C::*pm, const X &...extra)
    {
        static_assert(std::is_base_of<C, T>::value, "def_readwrite() requires a class member (or base class member)");
        return def_property(name, [pm](const T &c) -> const D & { return c.*pm; }, [pm](T &c, const D &v) { c.*pm = v; }, extra...);
    }
    template <class C, class D, class... X> class_ &def_readonly(const char *name, const D C::*pm, const X &...extra)
    {
        return def_property(name, [pm](const T &c) -> const D & { return c.*pm; }, nullptr, extra...);
    }

  private:
    static constexpr int T_PYSSIZET_ = 19, READONLY_ = 1;
};

template <class In, class Out> void implicitly_convertible()
{
    detail::record *r = detail::find_record(typeid(Out));
    if (!r)
        throw std::runtime_error("implicitly_convertible: Unable to find type");
    r->implicit.push_back(
        [r](PyObject *src) -> PyObject *
        {
            static thread_local bool busy = false;
            if (busy)
                return nullptr;
            busy = true;
            PyObject *out = nullptr;
            detail::caster<In> c;
            if (c.load(src, false))
            {
                PyObject *args = PyTuple_Pack(1, src);
                out = PyObject_Call((PyObject *)r->type, args, nullptr);
                Py_DECREF(args);
                if (!out)
                    PyErr_Clear();
            }
            busy = false;
            return out;
        });
}
} // namespace pybind11

#define PYBIND11_MODULE(name, variable)                                                                                        \
    static void verif_pybind_init_##name(::pybind11::module_ &);                                                               \
    extern "C" __attribute__((visibility("default"))) PyObject *PyInit_##name()                                                \
    {                                                                                                                          \
        static PyModuleDef def = {PyModuleDef_HEAD_INIT, #name, nullptr, -1, nullptr, nullptr, nullptr, nullptr, nullptr};     \
        PyObject *m = PyModule_Create(&def);                                                                                   \
        if (!m)                                                                                                                \
            return nullptr;                                                                                                    \
        try                                                                                                                    \
        {                                                                                                                      \
            ::pybind11::module_ mod(m);                                                                                        \
            verif_pybind_init_##name(mod);                                                                                     \
        }                                                                                                                      \
        catch (const ::pybind11::error_already_set &e)                                                                         \
        {                                                                                                                      \
            e.restore();                                                                                                       \
            return nullptr;                                                                                                    \
        }                                                                                                                      \
        catch (const std::exception &e)                                                                                        \
        {                                                                                                                      \
            PyErr_SetString(PyExc_ImportError, e.what());                                                                      \
            return nullptr;                                                                                                    \
        }                                                                                                                      \
        return m;                                                                                                              \
    }                                                                                                                          \
    static void verif_pybind_init_##name(::pybind11::module_ &variable)
