// A stand-in for matioCpp (absent from this sandbox): the part of its interface that a logger uses, remembering what is written.
#pragma once
#include <Eigen/Dense>
#include <complex>
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <memory>
#include <string>
#include <stdexcept>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>

namespace matioCpp {
enum class FileVersion { Default, MAT4, MAT5, MAT7_3, Undefined };
enum class FileMode { ReadOnly, ReadAndWrite };
enum class Compression { None, zlib };
struct Logical { bool v; Logical(bool b = false) : v(b) {} operator bool() const { return v; } };
template <class T> inline const char* typeName() { return std::is_same<T, Logical>::value || std::is_same<T, bool>::value ? "logical" : std::is_floating_point<T>::value ? (sizeof(T) == 8 ? "double" : "single") : std::is_unsigned<T>::value ? "unsigned" : "integer"; }

struct Record {
    std::string name, kind, type, text; std::vector<size_t> dims; std::vector<double> data;          // data by columns
    std::vector<std::shared_ptr<Record>> children;
    std::shared_ptr<Record> deep() const { auto r = std::make_shared<Record>(*this); for (auto& c : r->children) c = c->deep(); return r; }
};
// what has been written, by file
struct Disk { static std::vector<std::pair<std::string, std::vector<std::shared_ptr<Record>>>>& files() { static std::vector<std::pair<std::string, std::vector<std::shared_ptr<Record>>>> f; return f; } static bool& broken() { static bool b = false; return b; } };

class Variable {
protected:
    std::shared_ptr<Record> r = std::make_shared<Record>();
    static size_t count(const std::vector<size_t>& d) { size_t n = 1; for (auto x : d) n *= x; return n; }
public:
    Variable() {}
    Variable(const Variable& o) : r(o.r->deep()) {}
    Variable(Variable&& o) : r(std::move(o.r)) { o.r = std::make_shared<Record>(); }
    Variable& operator=(const Variable& o) { if (this != &o) r = o.r->deep(); return *this; }
    Variable& operator=(Variable&& o) { if (this != &o) { r = std::move(o.r); o.r = std::make_shared<Record>(); } return *this; }
    virtual ~Variable() {}
    std::string name() const { return r->name; }
    const std::vector<size_t>& dimensions() const { return r->dims; }
    bool isValid() const { return !r->kind.empty(); }
    std::shared_ptr<Record> record() const { return r; }
};

template <typename T> class MultiDimensionalArray : public Variable {
    void make(const std::string& n, const std::vector<size_t>& d) { r->name = n; r->kind = "array"; r->type = typeName<T>(); r->dims = d; r->data.assign(count(d), 0.0); }
    size_t at(const std::vector<size_t>& i) const { if (i.size() != r->dims.size()) throw std::out_of_range("matioCpp: number of indices"); size_t p = 0, f = 1; for (size_t k = 0; k < i.size(); ++k) { if (i[k] >= r->dims[k]) throw std::out_of_range("matioCpp: index out of the dimensions"); p += i[k] * f; f *= r->dims[k]; } return p; }
    static_assert(std::is_same<T, double>::value, "the stand-in stores doubles");
public:
    using value_type = T; using index_type = size_t;
    MultiDimensionalArray() { make("unnamed_multidimensional_array", {0, 0, 0}); }
    explicit MultiDimensionalArray(const std::string& n) { make(n, {0, 0, 0}); }
    MultiDimensionalArray(const std::string& n, const std::vector<size_t>& d) { make(n, d); }
    MultiDimensionalArray(const std::string& n, const std::vector<size_t>& d, const T* v) { make(n, d); for (size_t i = 0; i < r->data.size(); ++i) r->data[i] = v[i]; }
    bool setName(const std::string& n) { r->name = n; return true; }
    void resize(const std::vector<size_t>& d) { r->dims = d; r->data.assign(count(d), 0.0); }
    T* data() { return r->data.data(); } const T* data() const { return r->data.data(); }
    size_t numberOfElements() const { return r->data.size(); }
    size_t rawIndexFromIndices(const std::vector<size_t>& i) const { return at(i); }
    void clear() { r->dims.assign(r->dims.size(), 0); r->data.clear(); }
    T& operator()(const std::vector<size_t>& i) { return r->data[at(i)]; } T operator()(const std::vector<size_t>& i) const { return r->data[at(i)]; }
    T& operator()(size_t i) { return r->data.at(i); } T operator()(size_t i) const { return r->data.at(i); }
    T& operator[](const std::vector<size_t>& i) { return r->data[at(i)]; }
    T& operator[](size_t i) { return r->data.at(i); }
    MultiDimensionalArray& fromVectorizedArray(const std::vector<size_t>& d, const T* v) { std::string n = r->name; make(n, d); for (size_t i = 0; i < r->data.size(); ++i) r->data[i] = v[i]; return *this; }
};
template <typename T> class Vector : public Variable {
    void make(const std::string& n, size_t s) { r->name = n; r->kind = "vector"; r->type = typeName<T>(); r->dims = {s, 1}; r->data.assign(s, 0.0); }
    static_assert(std::is_same<T, double>::value, "the stand-in stores doubles");
public:
    using value_type = T; using index_type = size_t;
    Vector() { make("unnamed_vector", 0); }
    explicit Vector(const std::string& n) { make(n, 0); }
    Vector(const std::string& n, size_t s) { make(n, s); }
    Vector(const std::string& n, std::initializer_list<T> l) { make(n, l.size()); size_t k = 0; for (auto x : l) r->data[k++] = x; }
    template <class C, class = decltype(std::declval<const C&>().data()), class = decltype(std::declval<const C&>().size())> Vector(const std::string& n, const C& c) { make(n, static_cast<size_t>(c.size())); for (size_t k = 0; k < r->data.size(); ++k) r->data[k] = c.data()[k]; }
    bool setName(const std::string& n) { r->name = n; return true; }
    void resize(size_t s) { r->dims = {s, 1}; r->data.resize(s); }
    size_t size() const { return r->data.size(); } T* data() { return r->data.data(); } const T* data() const { return r->data.data(); }
    T& operator()(size_t i) { return r->data.at(i); } T operator()(size_t i) const { return r->data.at(i); } T& operator[](size_t i) { return r->data.at(i); } T operator[](size_t i) const { return r->data.at(i); }
    T* begin() { return data(); } T* end() { return data() + size(); } void clear() { resize(0); }
    template <class C> Vector& operator=(const C& c) { resize(static_cast<size_t>(c.size())); for (size_t k = 0; k < r->data.size(); ++k) r->data[k] = c.data()[k]; return *this; }
};
template <typename T> class Element : public Variable {
    void make(const std::string& n, double v) { r->name = n; r->kind = "element"; r->type = typeName<T>(); r->dims = {1, 1}; r->data.assign(1, v); }
public:
    using value_type = T;
    Element() { make("unnamed_element", 0); }
    explicit Element(const std::string& n) { make(n, 0); }
    Element(const std::string& n, const T& v) { make(n, static_cast<double>(v)); }
    Element& operator=(const T& v) { r->data[0] = static_cast<double>(v); return *this; }
    operator T() const { return static_cast<T>(r->data[0]); }
    bool setName(const std::string& n) { r->name = n; return true; }
};
template <> inline Element<Logical>::Element(const std::string& n, const Logical& v) { make(n, v.v ? 1 : 0); }
class String : public Variable {
    void make(const std::string& n, const std::string& t) { r->name = n; r->kind = "string"; r->text = t; r->dims = {1, t.size()}; }
public:
    String() { make("unnamed_string", ""); }
    explicit String(const std::string& n) { make(n, ""); }
    String(const std::string& n, const std::string& t) { make(n, t); }
    String& operator=(const std::string& t) { r->text = t; r->dims = {1, t.size()}; return *this; }
    std::string operator()() const { return r->text; } size_t size() const { return r->text.size(); } bool setName(const std::string& n) { r->name = n; return true; }
};
class Struct : public Variable {
    void make(const std::string& n) { r->name = n; r->kind = "struct"; r->dims = {1, 1}; }
public:
    Struct() { make("unnamed_struct"); }
    explicit Struct(const std::string& n) { make(n); }
    Struct(const std::string& n, const std::vector<Variable>& f) { make(n); for (auto& x : f) setField(x); }
    bool setName(const std::string& n) { r->name = n; return true; }
    bool setField(const Variable& v) { return setField(v.name(), v); }
    bool setField(const std::string& n, const Variable& v) { auto c = v.record()->deep(); c->name = n; for (auto& x : r->children) if (x->name == n) { x = c; return true; } r->children.push_back(c); return true; }
    bool addField(const std::string& n) { auto c = std::make_shared<Record>(); c->name = n; r->children.push_back(c); return true; }
    bool isFieldExisting(const std::string& n) const { for (auto& x : r->children) if (x->name == n) return true; return false; }
    size_t numberOfFields() const { return r->children.size(); } std::vector<std::string> fields() const { std::vector<std::string> v; for (auto& x : r->children) v.push_back(x->name); return v; }
};
class CellArray : public Variable {
    void make(const std::string& n, const std::vector<size_t>& d) { r->name = n; r->kind = "cell"; r->dims = d; r->children.assign(count(d), std::make_shared<Record>()); }
    size_t at(const std::vector<size_t>& i) const { size_t p = 0, f = 1; for (size_t k = 0; k < i.size(); ++k) { if (i[k] >= r->dims.at(k)) throw std::out_of_range("matioCpp: index out of the dimensions"); p += i[k] * f; f *= r->dims[k]; } return p; }
public:
    CellArray() { make("unnamed_cell_array", {0, 0, 0}); }
    explicit CellArray(const std::string& n) { make(n, {0, 0, 0}); }
    CellArray(const std::string& n, const std::vector<size_t>& d) { make(n, d); }
    CellArray(const std::string& n, const std::vector<size_t>& d, const std::vector<Variable>& e) { make(n, d); if (e.size() == r->children.size()) for (size_t k = 0; k < e.size(); ++k) r->children[k] = e[k].record()->deep(); else r->children.clear(); }
    bool setName(const std::string& n) { r->name = n; return true; }
    bool setElement(size_t i, const Variable& v) { if (i >= r->children.size()) return false; r->children[i] = v.record()->deep(); return true; }
    bool setElement(const std::vector<size_t>& i, const Variable& v) { return setElement(at(i), v); }
    size_t numberOfElements() const { return r->children.size(); }
};
class File {
    std::string n; long slot = -1;
public:
    File() {}
    File(const File&) = delete;
    File(File&& o) : n(std::move(o.n)), slot(o.slot) { o.slot = -1; }
    File& operator=(File&& o) { n = std::move(o.n); slot = o.slot; o.slot = -1; return *this; }
    explicit File(const std::string& name, FileMode = FileMode::ReadAndWrite) { open(name); }
    bool open(const std::string& name, FileMode = FileMode::ReadAndWrite) { auto& f = Disk::files(); for (size_t i = 0; i < f.size(); ++i) if (f[i].first == name) { n = name; slot = static_cast<long>(i); return true; } return false; }
    static File Create(const std::string& name, FileVersion = FileVersion::Default, const std::string& = "") { File x; if (Disk::broken()) return x; auto& f = Disk::files(); x.n = name; for (size_t i = 0; i < f.size(); ++i) if (f[i].first == name) { f[i].second.clear(); x.slot = static_cast<long>(i); return x; } f.push_back({name, {}}); x.slot = static_cast<long>(f.size()) - 1; return x; }
    static bool Exists(const std::string& name) { for (auto& f : Disk::files()) if (f.first == name) return true; return false; }
    static bool Delete(const std::string& name) { auto& f = Disk::files(); for (size_t i = 0; i < f.size(); ++i) if (f[i].first == name) { f[i].second.clear(); f[i].first = "(deleted)"; return true; } return false; }
    bool isOpen() const { return slot >= 0; } std::string name() const { return n; } void close() { slot = -1; }
    bool write(const Variable& v, Compression = Compression::None) { if (slot < 0 || !v.isValid()) return false; auto& l = Disk::files()[static_cast<size_t>(slot)].second; for (auto& x : l) if (x->name == v.name()) return false; l.push_back(v.record()->deep()); return true; }
    bool write(const std::vector<Variable>& v, Compression c = Compression::None) { bool ok = true; for (auto& x : v) ok = write(x, c) && ok; return ok; }
    template <class It> auto write(It b, It e, Compression c = Compression::None) -> typename std::enable_if<std::is_base_of<Variable, typename std::decay<decltype(b->second)>::type>::value, bool>::type { bool ok = true; for (; b != e; ++b) ok = write(b->second, c) && ok; return ok; }
    template <class It> auto write(It b, It e, Compression c = Compression::None) -> typename std::enable_if<std::is_base_of<Variable, typename std::decay<decltype(*b)>::type>::value, bool>::type { bool ok = true; for (; b != e; ++b) ok = write(static_cast<const Variable&>(*b), c) && ok; return ok; }
};
} // namespace matioCpp
