// The part of dolfin's C++ interface that /repo/cpp uses, over the Python stub (symx.dolfinstub).
#ifndef SYMX_DOLFIN_H
#define SYMX_DOLFIN_H
namespace dolfin {
  namespace py = pybind11;
  using la_index = std::int32_t;
  class Cell;
  class Facet;

  [[noreturn]] inline void dolfin_error(std::string where, std::string task, std::string reason, ...)
  { symx::stop(PyExc_RuntimeError, where + ": " + task + ": " + reason); }

  class Point {
    std::array<SymReal, 3> c;
  public:
    Point(const SymReal& x = 0.0, const SymReal& y = 0.0, const SymReal& z = 0.0) : c{{x, y, z}} {}
    explicit Point(py::object o) : c{{o.attr("x")().cast<SymReal>(), o.attr("y")().cast<SymReal>(), o.attr("z")().cast<SymReal>()}} {}
    SymReal x() const { return c[0]; }
    SymReal y() const { return c[1]; }
    SymReal z() const { return c[2]; }
    SymReal& operator[](std::size_t i) { return c.at(i); }
    const SymReal& operator[](std::size_t i) const { return c.at(i); }
    SymReal* coordinates() { return c.data(); }
    const SymReal* coordinates() const { return c.data(); }
    const std::array<SymReal, 3>& array() const { return c; }
    SymReal dot(const Point& o) const { return c[0]*o.c[0] + c[1]*o.c[1] + c[2]*o.c[2]; }
  };

  struct Dim { std::size_t d; std::size_t dim() const { return d; } };

  // Data shared by the copies of a mesh.
  struct MeshData {
    py::object o;
    std::size_t g, t;
    std::vector<SymReal> x;
    bool have_x = false;
    std::map<std::tuple<std::size_t, std::size_t, std::size_t>, std::vector<unsigned int>> conn;
  };

  class Mesh {
  public:
    std::shared_ptr<MeshData> d;
    Mesh() {}
    explicit Mesh(py::object o) : d(std::make_shared<MeshData>())
    {
      d->o = o;
      d->g = o.attr("geometry")().attr("dim")().cast<std::size_t>();
      d->t = o.attr("topology")().attr("dim")().cast<std::size_t>();
    }
    Dim geometry() const { return Dim{d->g}; }
    Dim topology() const { return Dim{d->t}; }
    void init() const {}
    void init(std::size_t) const {}
    void init(std::size_t, std::size_t) const {}
    std::size_t num_cells() const { return d->o.attr("num_cells")().cast<std::size_t>(); }
    std::size_t num_vertices() const { return d->o.attr("num_vertices")().cast<std::size_t>(); }
    std::size_t num_facets() const { return d->o.attr("num_facets")().cast<std::size_t>(); }
    std::size_t num_entities(std::size_t k) const { return d->o.attr("num_entities")(k).cast<std::size_t>(); }
    std::vector<SymReal>& coordinates() const
    {
      if (!d->have_x) {
        d->x.clear();
        for (auto row : d->o.attr("coordinates")()) for (auto v : row) d->x.push_back(v.cast<SymReal>());
        d->have_x = true;
      }
      return d->x;
    }
    const std::vector<unsigned int>& entities(std::size_t k, std::size_t i, std::size_t e) const
    {
      auto key = std::make_tuple(k, i, e);
      auto it = d->conn.find(key);
      if (it == d->conn.end()) {
        if (i >= num_entities(k)) symx::stop(PyExc_IndexError, "C++: mesh entity index out of range");
        auto l = py::module_::import("symx.cppload").attr("entities")(d->o, k, i, e).cast<std::vector<unsigned int>>();
        it = d->conn.emplace(key, l).first;
      }
      return it->second;
    }
  };

  class MeshEntity {
  protected:
    Mesh m; std::size_t k, i;
  public:
    MeshEntity() {}
    MeshEntity(const Mesh& mesh, std::size_t dim, std::size_t index) : m(mesh), k(dim), i(index)
    { if (index >= mesh.num_entities(dim)) symx::stop(PyExc_IndexError, "C++: mesh entity index out of range"); }
    const Mesh& mesh() const { return m; }
    std::size_t dim() const { return k; }
    std::size_t index() const { return i; }
    const unsigned int* entities(std::size_t e) const { return m.entities(k, i, e).data(); }
    std::size_t num_entities(std::size_t e) const { return m.entities(k, i, e).size(); }
    py::object obj(const char* kind) const { return py::module_::import("symx.dolfinstub").attr(kind)(m.d->o, i); }
  };

  class Facet : public MeshEntity {
  public:
    Facet(const Mesh& mesh, std::size_t index) : MeshEntity(mesh, mesh.d->t - 1, index) {}
    bool exterior() const { return num_entities(m.d->t) == 1; }
  };

  class Cell : public MeshEntity {
  public:
    Cell() {}
    Cell(const Mesh& mesh, std::size_t index) : MeshEntity(mesh, mesh.d->t, index) {}
    void get_vertex_coordinates(std::vector<SymReal>& out) const
    {
      auto& x = m.coordinates();
      auto& vs = m.entities(k, i, 0);
      out.resize(vs.size()*m.d->g);
      for (std::size_t a = 0; a < vs.size(); a++) for (std::size_t b = 0; b < m.d->g; b++) out[a*m.d->g + b] = x[vs[a]*m.d->g + b];
    }
    Point normal(std::size_t f) const { return Point(py::object(obj("Cell").attr("normal")(f))); }
    SymReal normal(std::size_t f, std::size_t c) const { return normal(f)[c]; }
    SymReal volume() const { return obj("Cell").attr("volume")().cast<SymReal>(); }
  };

  template <class E> class EntityIterator {
    Mesh m; std::vector<unsigned int> ids; std::size_t pos = 0; std::unique_ptr<E> cur;
    void set() { if (pos < ids.size()) cur.reset(new E(m, ids[pos])); }
  public:
    EntityIterator(const Mesh& mesh, std::vector<unsigned int> l) : m(mesh), ids(l) { set(); }
    EntityIterator& operator++() { pos++; set(); return *this; }
    bool end() const { return pos >= ids.size(); }
    E* operator->() { return cur.get(); }
    E& operator*() { return *cur; }
    std::size_t pos_() const { return pos; }
  };
  inline std::vector<unsigned int> iota_(std::size_t n) { std::vector<unsigned int> v(n); for (std::size_t i = 0; i < n; i++) v[i] = i; return v; }
  class CellIterator : public EntityIterator<Cell> {
  public:
    explicit CellIterator(const Mesh& mesh) : EntityIterator<Cell>(mesh, iota_(mesh.num_cells())) {}
    explicit CellIterator(const MeshEntity& e) : EntityIterator<Cell>(e.mesh(), e.mesh().entities(e.dim(), e.index(), e.mesh().d->t)) {}
  };
  class FacetIterator : public EntityIterator<Facet> {
  public:
    explicit FacetIterator(const Mesh& mesh) : EntityIterator<Facet>(mesh, iota_(mesh.num_facets())) {}
    explicit FacetIterator(const MeshEntity& e) : EntityIterator<Facet>(e.mesh(), e.mesh().entities(e.dim(), e.index(), e.mesh().d->t - 1)) {}
  };

  template <class T> class MeshFunction {
    std::vector<T> v;
  public:
    MeshFunction() {}
    explicit MeshFunction(py::object o)
    {
      auto n = o.attr("size")().cast<std::size_t>();
      for (std::size_t i = 0; i < n; i++) v.push_back(o[py::int_(i)].cast<T>());
    }
    T& operator[](std::size_t i) { if (i >= v.size()) symx::stop(PyExc_IndexError, "C++: MeshFunction index out of range"); return v[i]; }
    const T& operator[](std::size_t i) const { return const_cast<MeshFunction*>(this)->operator[](i); }
    T& operator[](const MeshEntity& e) { return (*this)[e.index()]; }
    std::size_t size() const { return v.size(); }
  };

  struct DofList {
    std::vector<la_index> v;
    std::size_t size() const { return v.size(); }
    const la_index* data() const { return v.data(); }
    la_index operator[](std::size_t i) const { return v.at(i); }
  };
  class GenericDofMap {
  public:
    py::object o;
    DofList cell_dofs(std::size_t c) const
    { DofList l; for (auto d : o.attr("cell_dofs")(c)) l.v.push_back(py::int_(py::reinterpret_borrow<py::object>(d)).cast<la_index>()); return l; }
  };
  class FunctionSpace {
  public:
    py::object o;
    std::shared_ptr<const GenericDofMap> dofmap() const
    { auto d = std::make_shared<GenericDofMap>(); d->o = o.attr("dofmap")(); return d; }
  };
  class GenericVector {
  public:
    py::object o;
    void get_local(SymReal* out, std::size_t n, const la_index* rows) const
    { for (std::size_t i = 0; i < n; i++) out[i] = o[py::int_(rows[i])].cast<SymReal>(); }
    SymReal operator[](la_index i) const { return o[py::int_(i)].cast<SymReal>(); }
  };
  class Function {
  public:
    py::object o;
    std::shared_ptr<const FunctionSpace> function_space() const
    { auto s = std::make_shared<FunctionSpace>(); s->o = o.attr("function_space")(); return s; }
    std::shared_ptr<const GenericVector> vector() const
    { auto v = std::make_shared<GenericVector>(); v->o = o.attr("vector")(); return v; }
  };
}

namespace pybind11 { namespace detail {
  template <> struct type_caster<dolfin::Mesh> : type_caster_generic {   // pointers may leave the caster
    type_caster() : type_caster_generic(typeid(dolfin::Mesh)) {}
    dolfin::Mesh* value = nullptr;
    static constexpr auto name = const_name("dolfin.Mesh");
    template <typename T> using cast_op_type = pybind11::detail::cast_op_type<T>;
    bool load(handle src, bool)
    {
      if (!hasattr(src, "topology")) return false;
      // one C++ object per Python mesh, as long-lived as that
      if (!hasattr(src, "_cpp_mesh")) {
        auto m = new dolfin::Mesh(module_::import("weakref").attr("proxy")(src));
        setattr(src, "_cpp_mesh", capsule(m, [](void* q) { delete (dolfin::Mesh*) q; }));
      }
      value = reinterpret_borrow<capsule>(src.attr("_cpp_mesh").cast<capsule>());
      return true;
    }
    operator dolfin::Mesh*() { return value; }
    operator dolfin::Mesh&() { if (!value) throw reference_cast_error(); return *value; }
    static handle cast(const dolfin::Mesh& m, return_value_policy, handle) { return object(m.d->o.attr("_self")()).release(); }
  };
  template <class T> struct type_caster<dolfin::MeshFunction<T>> {
    dolfin::MeshFunction<T> value;
    static constexpr auto name = const_name("dolfin.MeshFunction");
    template <typename U> using cast_op_type = pybind11::detail::cast_op_type<U>;
    bool load(handle src, bool)
    {
      if (src.is_none() || !hasattr(src, "size")) return false;
      value = dolfin::MeshFunction<T>(reinterpret_borrow<object>(src));
      return true;
    }
    operator dolfin::MeshFunction<T>*() { return &value; }
    operator dolfin::MeshFunction<T>&() { return value; }
  };
  template <> struct type_caster<dolfin::Function> : type_caster_generic {   // pointers may leave the caster
    type_caster() : type_caster_generic(typeid(dolfin::Function)) {}
    dolfin::Function* value = nullptr;
    static constexpr auto name = const_name("dolfin.Function");
    template <typename T> using cast_op_type = pybind11::detail::cast_op_type<T>;
    bool load(handle src, bool)
    {
      if (src.is_none()) return true;
      if (!hasattr(src, "function_space")) return false;
      if (!hasattr(src, "_cpp_function")) {
        auto f = new dolfin::Function();
        f->o = reinterpret_steal<object>(module_::import("weakref").attr("proxy")(src).release());
        setattr(src, "_cpp_function", capsule(f, [](void* q) { delete (dolfin::Function*) q; }));
      }
      value = reinterpret_borrow<capsule>(src.attr("_cpp_function").cast<capsule>());
      return true;
    }
    operator dolfin::Function*() { return value; }
    operator dolfin::Function&() { if (!value) throw reference_cast_error(); return *value; }
  };
} }
#endif
