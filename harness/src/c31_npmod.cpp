// C31: an extension module that does by hand what the typemaps of Interface.i generate: C++ results are
// handed to Python with numpy::convert (copies of values, views of references) and arguments are taken
// with numpy::as.
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <array>
#include <complex>
#include <cstdint>
#include <map>
#include <memory>
#include <string>
#include <type_traits>
#include <vector>

#include "NumpyUtils.hpp"
#include "Traits.hpp"

namespace {
using cd = std::complex<double>;

struct Holder {
    virtual ~Holder() = default;
    virtual PyObject *convert(int mode) = 0; // 0 copy, 1 copy of const, 2 view, 3 view of const
    virtual std::pair<void *, size_t> data() = 0;
};
template <typename O>
PyObject *by_mode(O &o, int mode) {
    const O &c = o;
    switch (mode) {
    case 0:
        return numpy::convert<numpy::copy>(o);
    case 1:
        return numpy::convert<numpy::copy>(c);
    case 2:
        return numpy::convert<numpy::view>(o);
    default: {
        O *p = &o; // like the typemap of constant references
        return numpy::convert<numpy::view>(*const_cast<typename traits::pointer_add_const<O *>::type>(p));
    }
    }
}
template <typename O>
struct Dense : Holder {
    O o;
    using T = typename std::remove_reference<decltype(*std::declval<O &>().data())>::type;
    PyObject *convert(int mode) override { return by_mode(o, mode); }
    std::pair<void *, size_t> data() override { return {o.data(), o.size() * sizeof(T)}; }
};
template <typename T>
struct Raw : Holder {
    std::unique_ptr<T[]> o;
    size_t n;
    explicit Raw(size_t n_) : o(new T[n_ + 1]), n(n_) {}
    PyObject *convert(int mode) override {
        T *b = o.get(), *e = b + n;
        const T *cb = b, *ce = e;
        return mode == 0 ? numpy::convert<numpy::copy>(b, e)
            : mode == 1  ? numpy::convert<numpy::copy>(cb, ce)
            : mode == 2  ? numpy::convert<numpy::view>(b, e)
                         : numpy::convert<numpy::view>(cb, ce);
    }
    std::pair<void *, size_t> data() override { return {o.get(), n * sizeof(T)}; }
};
template <typename T>
struct Sparse : Holder {
    Eigen::SparseMatrix<T> o;
    PyObject *convert(int mode) override { return by_mode(o, mode); }
    std::pair<void *, size_t> data() override { return {o.valuePtr(), o.nonZeros() * sizeof(T)}; }
};

std::map<long, std::unique_ptr<Holder>> store;
long next_id = 1;

template <typename T>
std::unique_ptr<Holder> make_dense(const std::string &kind, long rows, long cols) {
    if (kind == "mat") {
        auto h = std::make_unique<Dense<Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic>>>();
        h->o.resize(rows, cols);
        return h;
    }
    if (kind == "vec") {
        auto h = std::make_unique<Dense<Eigen::Matrix<T, Eigen::Dynamic, 1>>>();
        h->o.resize(rows);
        return h;
    }
    if (kind == "std") {
        auto h = std::make_unique<Dense<std::vector<T>>>();
        h->o.resize(rows);
        return h;
    }
    if (kind == "arr") {
        return std::make_unique<Dense<std::array<T, 2>>>();
    }
    return std::make_unique<Raw<T>>(rows);
}

PyObject *fail(const char *what) {
    if (!PyErr_Occurred()) {
        PyErr_SetString(PyExc_RuntimeError, what);
    }
    return nullptr;
}
Holder *find(long id) {
    auto it = store.find(id);
    return it == store.end() ? nullptr : it->second.get();
}

// dense(kind, type, rows, cols, bytes) -> id of a C++ object with these values
PyObject *py_dense(PyObject *, PyObject *args) {
    const char *kind, *type;
    long rows, cols;
    Py_buffer b;
    if (!PyArg_ParseTuple(args, "sslly*", &kind, &type, &rows, &cols, &b)) {
        return nullptr;
    }
    std::unique_ptr<Holder> h;
    switch (type[0]) {
    case 'i':
        h = make_dense<int>(kind, rows, cols);
        break;
    case 'f':
        h = make_dense<float>(kind, rows, cols);
        break;
    case 'd':
        h = make_dense<double>(kind, rows, cols);
        break;
    default:
        h = make_dense<cd>(kind, rows, cols);
    }
    auto d = h->data();
    if (static_cast<size_t>(b.len) != d.second) {
        PyBuffer_Release(&b);
        return fail("harness: wrong number of bytes");
    }
    if (b.len > 0) {
        std::memcpy(d.first, b.buf, b.len);
    }
    PyBuffer_Release(&b);
    store[next_id] = std::move(h);
    return PyLong_FromLong(next_id++);
}

template <typename T>
std::unique_ptr<Holder> make_sparse(long rows, long cols, long n, const int *idx, const T *val, int how) {
    auto h = std::make_unique<Sparse<T>>();
    h->o.resize(rows, cols);
    if (how == 0) {
        std::vector<Eigen::Triplet<T>> t;
        for (long k = 0; k < n; ++k) {
            t.emplace_back(idx[2 * k], idx[2 * k + 1], val[k]);
        }
        h->o.setFromTriplets(t.begin(), t.end());
    } else { // leaves space for further entries
        for (long k = 0; k < n; ++k) {
            h->o.coeffRef(idx[2 * k], idx[2 * k + 1]) += val[k];
        }
        if (how == 1) {
            h->o.makeCompressed();
        }
    }
    return h;
}
// sparse(type, rows, cols, indices as pairs of int, values, how) -> id
PyObject *py_sparse(PyObject *, PyObject *args) {
    const char *type;
    long rows, cols;
    int how;
    Py_buffer i, v;
    if (!PyArg_ParseTuple(args, "slly*y*i", &type, &rows, &cols, &i, &v, &how)) {
        return nullptr;
    }
    long n = i.len / (2 * sizeof(int));
    store[next_id] = type[0] == 'd'
        ? make_sparse<double>(rows, cols, n, static_cast<const int *>(i.buf), static_cast<const double *>(v.buf), how)
        : make_sparse<cd>(rows, cols, n, static_cast<const int *>(i.buf), static_cast<const cd *>(v.buf), how);
    PyBuffer_Release(&i);
    PyBuffer_Release(&v);
    return PyLong_FromLong(next_id++);
}
// convert(id, mode)
PyObject *py_convert(PyObject *, PyObject *args) {
    long id;
    int mode;
    if (!PyArg_ParseTuple(args, "li", &id, &mode)) {
        return nullptr;
    }
    Holder *h = find(id);
    if (h == nullptr) {
        return fail("harness: no such object");
    }
    try {
        PyObject *o = h->convert(mode);
        return o != nullptr ? o : fail("no object");
    } catch (const std::exception &e) {
        return fail(e.what());
    }
}
// shaped(id, mode, number of dimensions, extents): an array of the given shape, from a bare pointer
template <numpy::view_or_copy v, typename P>
PyObject *shaped(P b, P e, int nd, const std::vector<npy_intp> &d) {
    switch (d.size()) {
    case 0:
        return numpy::convert<v>(b, e, nd, std::initializer_list<npy_intp>{});
    case 1:
        return numpy::convert<v>(b, e, nd, {d[0]});
    case 2:
        return numpy::convert<v>(b, e, nd, {d[0], d[1]});
    default:
        return numpy::convert<v>(b, e, nd, {d[0], d[1], d[2]});
    }
}
PyObject *py_shaped(PyObject *, PyObject *args) {
    long id, d[3] = {0, 0, 0};
    int mode, nd, count;
    if (!PyArg_ParseTuple(args, "liiilll", &id, &mode, &nd, &count, &d[0], &d[1], &d[2])) {
        return nullptr;
    }
    auto *h = dynamic_cast<Raw<double> *>(find(id));
    if (h == nullptr) {
        return fail("harness: no such object");
    }
    std::vector<npy_intp> dims(d, d + count);
    double *b = h->o.get(), *e = b + h->n;
    const double *cb = b, *ce = e;
    try {
        PyObject *o = mode == 0 ? shaped<numpy::copy>(b, e, nd, dims)
            : mode == 1         ? shaped<numpy::copy>(cb, ce, nd, dims)
            : mode == 2         ? shaped<numpy::view>(b, e, nd, dims)
                                : shaped<numpy::view>(cb, ce, nd, dims);
        return o != nullptr ? o : fail("no object");
    } catch (const std::exception &e) {
        return fail(e.what());
    }
}
PyObject *py_peek(PyObject *, PyObject *args) {
    long id;
    if (!PyArg_ParseTuple(args, "l", &id)) {
        return nullptr;
    }
    Holder *h = find(id);
    if (h == nullptr) {
        return fail("harness: no such object");
    }
    auto d = h->data();
    return PyBytes_FromStringAndSize(static_cast<const char *>(d.first), d.second);
}
PyObject *py_poke(PyObject *, PyObject *args) {
    long id;
    Py_buffer b;
    if (!PyArg_ParseTuple(args, "ly*", &id, &b)) {
        return nullptr;
    }
    Holder *h = find(id);
    bool ok = h != nullptr && h->data().second == static_cast<size_t>(b.len);
    if (ok && b.len > 0) {
        std::memcpy(h->data().first, b.buf, b.len);
    }
    PyBuffer_Release(&b);
    if (!ok) {
        return fail("harness: wrong number of bytes");
    }
    Py_RETURN_NONE;
}
// The memory of a dropped object is overwritten before it is released
PyObject *py_drop(PyObject *, PyObject *args) {
    long id;
    if (!PyArg_ParseTuple(args, "l", &id)) {
        return nullptr;
    }
    if (Holder *h = find(id)) {
        auto d = h->data();
        if (d.second > 0) {
            std::memset(d.first, 0x5a, d.second);
        }
        store.erase(id);
    }
    Py_RETURN_NONE;
}

PyObject *result(long rows, long cols, const void *p, size_t n) {
    return Py_BuildValue("lly#", rows, cols, n > 0 ? static_cast<const char *>(p) : "", static_cast<Py_ssize_t>(n));
}
template <typename T>
PyObject *take_dense(const std::string &kind, PyObject *o) {
    if (kind == "mat") {
        using M = Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic>;
        M m = numpy::as<M>(o);
        return result(m.rows(), m.cols(), m.data(), m.size() * sizeof(T));
    }
    using V = Eigen::Matrix<T, Eigen::Dynamic, 1>;
    V m = numpy::as<V>(o);
    return result(m.rows(), m.cols(), m.data(), m.size() * sizeof(T));
}
template <typename T>
PyObject *take_sparse(PyObject *o) {
    using M = Eigen::SparseMatrix<T>;
    M m;
    m = numpy::as<M>(o);
    Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic> d = Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic>::Zero(m.rows(), m.cols());
    for (Eigen::Index k = 0; k < m.outerSize(); ++k) {
        for (typename M::InnerIterator it(m, k); it; ++it) {
            if (it.row() < 0 || it.row() >= m.rows()) {
                return Py_BuildValue("lly#", -1L, -1L, "", static_cast<Py_ssize_t>(0)); // not a matrix
            }
            d(it.row(), k) += it.value();
        }
    }
    return result(m.rows(), m.cols(), d.data(), d.size() * sizeof(T));
}
// take(kind, type, object) -> (rows, columns, values column by column)
PyObject *py_take(PyObject *, PyObject *args) {
    const char *kind, *type;
    PyObject *o;
    if (!PyArg_ParseTuple(args, "ssO", &kind, &type, &o)) {
        return nullptr;
    }
    try {
        if (std::string(kind) == "sparse") {
            return type[0] == 'd' ? take_sparse<double>(o) : take_sparse<cd>(o);
        }
        switch (type[0]) {
        case 'i':
            return take_dense<int>(kind, o);
        case 'f':
            return take_dense<float>(kind, o);
        case 'd':
            return take_dense<double>(kind, o);
        default:
            return take_dense<cd>(kind, o);
        }
    } catch (const std::exception &e) {
        return fail(e.what());
    }
}
PyMethodDef methods[] = {{"dense", py_dense, METH_VARARGS, ""},     {"sparse", py_sparse, METH_VARARGS, ""},
                         {"convert", py_convert, METH_VARARGS, ""}, {"peek", py_peek, METH_VARARGS, ""},
                         {"poke", py_poke, METH_VARARGS, ""},       {"drop", py_drop, METH_VARARGS, ""},
                         {"take", py_take, METH_VARARGS, ""},
                         {"shaped", py_shaped, METH_VARARGS, ""},       {nullptr, nullptr, 0, nullptr}};
PyModuleDef module_def = {PyModuleDef_HEAD_INIT, "c31_npmod", nullptr, -1, methods, nullptr, nullptr, nullptr, nullptr};
} // namespace

PyMODINIT_FUNC PyInit_c31_npmod() {
    import_array();
    return PyModule_Create(&module_def);
}
