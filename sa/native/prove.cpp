// Native version of dom.Facts._prove (same algorithm): goal-directed
// elimination over linear inequalities.
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <algorithm>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <string>

typedef __int128 i128;
static const i128 LIM = ((i128)1) << 100;

struct Term { int a; i128 k; };
struct L { i128 c; std::vector<Term> t; };

static PyObject *s_c, *s_t;

static bool big(i128 x) { return x > LIM || x < -LIM; }

static bool toI(PyObject *o, i128 &r)
{
    int ov;
    long long v = PyLong_AsLongLongAndOverflow(o, &ov);
    if (!ov) { r = v; return !(v == -1 && PyErr_Occurred()); }
    unsigned char buf[16];
#if PY_VERSION_HEX >= 0x030D0000
    if (_PyLong_AsByteArray((PyLongObject *)o, buf, 16, 1, 1, 0) < 0) {
#else
    if (_PyLong_AsByteArray((PyLongObject *)o, buf, 16, 1, 1) < 0) {
#endif
        PyErr_Clear();
        return false;
    }
    unsigned __int128 u = 0;
    for (int i = 15; i >= 0; i--) u = (u << 8) | buf[i];
    r = (i128)u;
    return !big(r);
}

struct Ctx {
    std::vector<L> cons;
    std::unordered_map<long, int> ids;
    std::vector<i128> lo, hi;
    std::vector<char> blo, bhi;     // bound is finite
};

static PyObject *g_b, *g_lo, *g_hi;

static bool bound(PyObject *o, i128 &v, char &fin)
{
    if (PyLong_Check(o)) { fin = toI(o, v); if (!fin) PyErr_Clear(); return true; }
    fin = 0;
    return true;
}

static int localid(Ctx &x, long a, PyObject *ao)
{
    auto it = x.ids.find(a);
    if (it != x.ids.end()) return it->second;
    int id = (int)x.lo.size();
    x.ids[a] = id;
    i128 l = 0, h = 0;
    char fl = 0, fh = 0;
    PyObject *r = PyDict_GetItem(g_b, ao);
    if (r && PyTuple_Check(r) && PyTuple_GET_SIZE(r) == 2) {
        bound(PyTuple_GET_ITEM(r, 0), l, fl);
        bound(PyTuple_GET_ITEM(r, 1), h, fh);
    } else {
        bound(PyList_GET_ITEM(g_lo, a), l, fl);
        bound(PyList_GET_ITEM(g_hi, a), h, fh);
    }
    x.lo.push_back(l); x.hi.push_back(h);
    x.blo.push_back(fl); x.bhi.push_back(fh);
    return id;
}

// false: cannot be represented
static bool toL(Ctx &x, PyObject *o, L &r)
{
    PyObject *c = PyObject_GetAttr(o, s_c);
    PyObject *t = PyObject_GetAttr(o, s_t);
    bool ok = c && t && toI(c, r.c);
    if (ok) {
        Py_ssize_t n = PyTuple_GET_SIZE(t);
        r.t.reserve(n);
        for (Py_ssize_t i = 0; i < n && ok; i++) {
            PyObject *p = PyTuple_GET_ITEM(t, i);
            PyObject *ao = PyTuple_GET_ITEM(p, 0);
            Term q;
            q.a = localid(x, PyLong_AsLong(ao), ao);
            ok = toI(PyTuple_GET_ITEM(p, 1), q.k);
            r.t.push_back(q);
        }
        // local ids need not be ordered like atoms
        std::sort(r.t.begin(), r.t.end(),
                  [](const Term &p, const Term &q) { return p.a < q.a; });
    }
    Py_XDECREF(c); Py_XDECREF(t);
    return ok;
}

// upper bound of x <= 0 ?
static bool upLe0(const Ctx &x, const L &l)
{
    i128 h = l.c;
    for (auto &t : l.t) {
        if (t.k > 0) {
            if (!x.bhi[t.a]) return false;
            i128 b = x.hi[t.a];
            if (big(b)) return false;
            double d = (double)t.k * (double)b;
            if (d > 1e36 || d < -1e36) return false;
            h += t.k * b;
        } else {
            if (!x.blo[t.a]) return false;
            i128 b = x.lo[t.a];
            double d = (double)t.k * (double)b;
            if (d > 1e36 || d < -1e36) return false;
            h += t.k * b;
        }
    }
    return h <= 0;
}

static i128 iabs(i128 x) { return x < 0 ? -x : x; }

static i128 gcd128(i128 a, i128 b)
{
    a = iabs(a); b = iabs(b);
    while (b) { i128 t = a % b; a = b; b = t; }
    return a;
}

static std::string keyOf(const L &l)
{
    std::string s((const char *)&l.c, 16);
    for (auto &t : l.t) {
        s.append((const char *)&t.a, sizeof t.a);
        s.append((const char *)&t.k, 16);
    }
    return s;
}

static bool mulOk(i128 a, i128 b)
{
    double d = (double)a * (double)b;
    return d < 1e30 && d > -1e30;
}

// y = p*x - q*f ; false when out of range
static bool comb(const L &x, i128 p, const L &f, i128 q, L &y)
{
    if (!mulOk(x.c, p) || !mulOk(f.c, q)) return false;
    y.c = x.c * p - f.c * q;
    size_t i = 0, j = 0;
    y.t.clear();
    while (i < x.t.size() || j < f.t.size()) {
        Term r;
        if (j >= f.t.size() || (i < x.t.size() && x.t[i].a < f.t[j].a)) {
            if (!mulOk(x.t[i].k, p)) return false;
            r.a = x.t[i].a; r.k = x.t[i].k * p; i++;
        } else if (i >= x.t.size() || f.t[j].a < x.t[i].a) {
            if (!mulOk(f.t[j].k, q)) return false;
            r.a = f.t[j].a; r.k = -f.t[j].k * q; j++;
        } else {
            if (!mulOk(x.t[i].k, p) || !mulOk(f.t[j].k, q)) return false;
            r.a = x.t[i].a; r.k = x.t[i].k * p - f.t[j].k * q; i++; j++;
        }
        if (r.k) y.t.push_back(r);
    }
    return true;
}

static i128 floordiv(i128 a, i128 b)   // b > 0
{
    i128 q = a / b;
    if (a % b && a < 0) q--;
    return q;
}

static bool prove(const Ctx &x, const L &goal, int depth,
                  std::unordered_set<std::string> &seen, int &fuel)
{
    seen.insert(keyOf(goal));
    std::vector<L> cand;
    for (auto &f : x.cons) {
        for (auto &ft : f.t) {
            const Term *g = nullptr;
            for (auto &t : goal.t) if (t.a == ft.a) { g = &t; break; }
            if (!g || (g->k > 0) != (ft.k > 0)) continue;
            if (--fuel < 0) return false;
            L y;
            if (!comb(goal, iabs(ft.k), f, iabs(g->k), y)) continue;
            if (y.t.empty()) {
                if (y.c <= 0) return true;
                continue;
            }
            i128 d = 0;
            for (auto &t : y.t) d = gcd128(d, t.k);
            if (d > 1) {
                for (auto &t : y.t) t.k /= d;
                // sum <= -c/d : the constant is rounded in our favour only
                // when exact reasoning over integers allows it
                y.c = -floordiv(-y.c, d);
            }
            if (seen.count(keyOf(y))) continue;
            if (upLe0(x, y)) return true;
            cand.push_back(std::move(y));
        }
    }
    if (depth <= 1) return false;
    std::stable_sort(cand.begin(), cand.end(), [](const L &p, const L &q) {
        return p.t.size() < q.t.size(); });
    size_t n = 0;
    for (auto &y : cand) {
        if (n++ >= 16) break;
        if (y.t.size() > 6 || seen.count(keyOf(y))) continue;
        if (prove(x, y, depth - 1, seen, fuel)) return true;
        if (fuel < 0) return false;
    }
    return false;
}

static PyObject *py_prove(PyObject *, PyObject *args)
{
    PyObject *goal, *cons;
    int depth;
    if (!PyArg_ParseTuple(args, "OO!O!O!O!i", &goal, &PyList_Type, &cons,
                          &PyDict_Type, &g_b, &PyList_Type, &g_lo,
                          &PyList_Type, &g_hi, &depth))
        return nullptr;
    Ctx x;
    L g;
    if (!toL(x, goal, g)) { PyErr_Clear(); Py_RETURN_FALSE; }
    // Only constraints reachable from the goal matter.
    Py_ssize_t n = PyList_GET_SIZE(cons);
    x.cons.reserve(n);
    for (Py_ssize_t i = 0; i < n; i++) {
        L f;
        if (toL(x, PyList_GET_ITEM(cons, i), f)) x.cons.push_back(std::move(f));
        else PyErr_Clear();
    }
    std::unordered_set<std::string> seen;
    int fuel = 20000;
    if (prove(x, g, depth, seen, fuel)) Py_RETURN_TRUE;
    Py_RETURN_FALSE;
}

static PyMethodDef methods[] = {
    {"prove", py_prove, METH_VARARGS, ""},
    {nullptr, nullptr, 0, nullptr}};
static PyModuleDef mod = {PyModuleDef_HEAD_INIT, "_prove", "", -1, methods,
                          nullptr, nullptr, nullptr, nullptr};

PyMODINIT_FUNC PyInit__prove(void)
{
    s_c = PyUnicode_InternFromString("c");
    s_t = PyUnicode_InternFromString("t");
    return PyModule_Create(&mod);
}
