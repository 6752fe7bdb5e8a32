#pragma once
#include <algorithm>

#include "pybind11.h"

#define PYBIND11_MAKE_OPAQUE(...)                                                                                              \
    namespace pybind11::detail                                                                                                 \
    {                                                                                                                          \
    template <> struct caster<__VA_ARGS__, void> : opaque_caster<__VA_ARGS__>                                                  \
    {                                                                                                                          \
    };                                                                                                                         \
    }

namespace pybind11
{
namespace detail
{
// what a registered class's caster does, for a type that also has a value caster
template <class T> struct opaque_caster
{
    void *value = nullptr;
    std::shared_ptr<void> *own = nullptr;
    bool load(handle src, bool convert)
    {
        record *r = find_record(typeid(T));
        if (!r || !src)
            return false;
        if (PyObject_TypeCheck(src.ptr(), r->type))
        {
            auto *i = (instance *)src.ptr();
            value = i->ptr;
            own = i->own;
            return value != nullptr;
        }
        return src.is_none() && convert;
    }
    T &ref()
    {
        if (!value)
            throw reference_cast_error();
        return *static_cast<T *>(value);
    }
    T *pointer() { return static_cast<T *>(value); }
    static PyObject *make(T *p, std::shared_ptr<void> *own, handle parent)
    {
        record *r = find_record(typeid(T));
        if (!r)
            return no_record(typeid(T));
        PyObject *o = instance_new(r->type, nullptr, nullptr);
        bind_instance((instance *)o, p, own);
        if (parent)
            add_patient(o, parent.ptr());
        return o;
    }
    static PyObject *cast(const T &src, return_value_policy policy, handle parent)
    {
        if (record *r = find_record(typeid(T)))
            if (PyObject *o = existing(&src, r))
                return o;
        if (policy == return_value_policy::reference || policy == return_value_policy::reference_internal)
            return make(const_cast<T *>(&src), nullptr, policy == return_value_policy::reference ? handle() : parent);
        std::shared_ptr<T> p(new T(src));
        return make(p.get(), new std::shared_ptr<void>(p), handle());
    }
    static PyObject *cast(T &&src, return_value_policy, handle)
    {
        std::shared_ptr<T> p(new T(std::move(src)));
        return make(p.get(), new std::shared_ptr<void>(p), handle());
    }
    static PyObject *cast_pointer(const T *src, return_value_policy policy, handle parent)
    {
        if (!src)
            Py_RETURN_NONE;
        if (policy != return_value_policy::automatic && policy != return_value_policy::take_ownership)
            return cast(*src, policy, parent);
        std::shared_ptr<T> p(const_cast<T *>(src));
        return make(p.get(), new std::shared_ptr<void>(p), handle());
    }
};
} // namespace detail

template <class Vector, class... X> class_<Vector> bind_vector(handle scope, const char *name, const X &...)
{
    using T = typename Vector::value_type;
    class_<Vector> cl(scope, name);
    auto wrap = [](long i, size_t n)
    {
        if (i < 0)
            i += (long)n;
        if (i < 0 || (size_t)i >= n)
            throw index_error();
        return (size_t)i;
    };
    auto collect = [](const handle &it, Vector &out)
    {
        object iter = object::steal(PyObject_GetIter(it.ptr()));
        while (PyObject *p = PyIter_Next(iter.ptr()))
            out.push_back(object::steal(p).template cast<T>());
        if (PyErr_Occurred())
            throw error_already_set();
    };
    cl.construct(
        [](const buffer &b)
        {
            Py_buffer v;
            if (PyObject_GetBuffer(b.ptr(), &v, PyBUF_STRIDES | PyBUF_FORMAT))
                throw error_already_set();
            std::unique_ptr<Py_buffer, void (*)(Py_buffer *)> release(&v, PyBuffer_Release);
            if (v.ndim != 1 || v.strides[0] % (Py_ssize_t)sizeof(T))
                throw type_error("Only valid 1D buffers can be copied to a vector");
            if (v.itemsize != sizeof(T) || !v.format || std::string(v.format) != "b")
                throw type_error("Format mismatch");
            auto *out = new Vector;
            for (Py_ssize_t i = 0; i < v.shape[0]; i++)
                out->push_back(*(T *)((char *)v.buf + i * v.strides[0]));
            return out;
        },
        (Vector * (*)(const buffer &)) nullptr);
    cl.def(init<>());
    cl.construct([](const Vector &o) { return new Vector(o); }, (Vector * (*)(const Vector &)) nullptr);
    cl.def("__eq__", [](const Vector &a, const Vector &b) { return a == b; }, is_operator());
    cl.def("__ne__", [](const Vector &a, const Vector &b) { return a != b; }, is_operator());
    cl.def("count", [](const Vector &v, const T &x) { return std::count(v.begin(), v.end(), x); });
    cl.def("remove",
           [](Vector &v, const T &x)
           {
               auto p = std::find(v.begin(), v.end(), x);
               if (p == v.end())
                   throw value_error();
               v.erase(p);
           });
    cl.def("__contains__", [](const Vector &v, const T &x) { return std::find(v.begin(), v.end(), x) != v.end(); });
    std::string shown = name;
    cl.def("__repr__",
           [shown](Vector &v)
           {
               std::ostringstream s;
               s << shown << '[';
               for (size_t i = 0; i < v.size(); i++)
                   s << (i ? ", " : "") << v[i];
               s << ']';
               return s.str();
           });
    cl.def("append", [](Vector &v, const T &x) { v.push_back(x); });
    cl.construct(
        [collect](const iterable &it)
        {
            auto v = std::make_unique<Vector>();
            collect(it, *v);
            return v.release();
        },
        (Vector * (*)(const iterable &)) nullptr);
    cl.def("clear", [](Vector &v) { v.clear(); });
    cl.def("extend", [](Vector &v, const Vector &src) { v.insert(v.end(), src.begin(), src.end()); });
    cl.def("extend",
           [collect](Vector &v, const iterable &it)
           {
               Vector more;
               collect(it, more);
               v.insert(v.end(), more.begin(), more.end());
           });
    cl.def("insert",
           [](Vector &v, long i, const T &x)
           {
               if (i < 0)
                   i += (long)v.size();
               if (i < 0 || (size_t)i > v.size())
                   throw index_error();
               v.insert(v.begin() + i, x);
           });
    cl.def("pop",
           [](Vector &v)
           {
               if (v.empty())
                   throw index_error();
               T t = v.back();
               v.pop_back();
               return t;
           });
    cl.def("pop",
           [wrap](Vector &v, long i)
           {
               size_t at = wrap(i, v.size());
               T t = v[at];
               v.erase(v.begin() + (long)at);
               return t;
           });
    cl.def("__setitem__", [wrap](Vector &v, long i, const T &x) { v[wrap(i, v.size())] = x; });
    cl.def("__getitem__",
           [](const Vector &v, const slice &s) -> Vector *
           {
               size_t start = 0, stop = 0, step = 0, n = 0;
               if (!s.compute(v.size(), &start, &stop, &step, &n))
                   throw error_already_set();
               auto *out = new Vector;
               for (size_t i = 0; i < n; i++, start += step)
                   out->push_back(v[start]);
               return out;
           });
    cl.def("__delitem__", [wrap](Vector &v, long i) { v.erase(v.begin() + (long)wrap(i, v.size())); });
    cl.def("__getitem__", [wrap](const Vector &v, long i) -> T { return v[wrap(i, v.size())]; });
    cl.def("__iter__", [](Vector &v) { return make_iterator(v.begin(), v.end()); }, keep_alive<0, 1>());
    cl.def("__bool__", [](const Vector &v) { return !v.empty(); });
    cl.def("__len__", [](const Vector &v) { return v.size(); });
    return cl;
}
} // namespace pybind11
