// Stand-ins for the parts of yugawara that mizugaki uses.
#pragma once
#include <deque>
#include <map>
#include <unordered_map>
#include "../takatori/ty_ops.h"

namespace yugawara {
namespace ty = ::takatori;
using ty::util::optional_ptr; using ty::util::maybe_shared_ptr; using ty::util::rvalue_ptr;
namespace storage { class provider; class relation; class table; class index; class column; class sequence; }
namespace util {
enum class ternary { no, yes, unknown };
inline std::ostream& operator<<(std::ostream& o, ternary k) { return o << static_cast<int>(k); }
constexpr ternary operator~(ternary a) { return a == ternary::no ? ternary::yes : a == ternary::yes ? ternary::no : a; }
template<class T> class object_repository {
public:
    template<class U> std::shared_ptr<std::decay_t<U> const> get(U&& v) { auto p = std::shared_ptr<std::decay_t<U> const> { std::forward<U>(v).clone() }; e_.push_back(p); return p; }
    template<class U> std::shared_ptr<std::remove_const_t<U> const> add(std::shared_ptr<U> v) { e_.push_back(v); return v; }
    void clear() { e_.clear(); }
private: std::vector<std::shared_ptr<T const>> e_ {};
};
}
template<class Code> class diagnostic {
public:
    using code_type = Code; using message_type = std::string; using location_type = ty::document::region;
    diagnostic() = default; diagnostic(Code c, std::string m, location_type l) : c_(c), m_(std::move(m)), l_(l) {}
    Code code() const { return c_; } std::string const& message() const { return m_; } location_type const& location() const { return l_; }
    friend std::ostream& operator<<(std::ostream& o, diagnostic const& d) { return o << "diagnostic(" << d.c_ << ", '" << d.m_ << "', " << d.l_ << ")"; }
private: Code c_ {}; std::string m_ {}; location_type l_ {};
};
namespace variable {
class nullity { public: explicit constexpr nullity(bool n) : n_(n) {} constexpr bool nullable() const { return n_; } constexpr nullity operator~() const { return nullity { !n_ }; } constexpr bool operator==(nullity o) const { return n_ == o.n_; } constexpr bool operator!=(nullity o) const { return n_ != o.n_; } friend std::ostream& operator<<(std::ostream& o, nullity n) { return o << n.n_; } private: bool n_; };
inline constexpr nullity nullable { true };
class criteria { public: criteria() = default; criteria(nullity n) : n_(n) {} variable::nullity nullity() const { return n_; } criteria& nullity(variable::nullity n) { n_ = n; return *this; } private: variable::nullity n_ { true }; };
class declaration { public:
    declaration(std::string n, std::shared_ptr<ty::type::data const> t, criteria c = {}) : n_(std::move(n)), t_(std::move(t)), c_(c) {}
    declaration(std::string_view n, ty::type::data&& t, criteria c = {}) : n_(n), t_(t.clone()), c_(c) {}
    std::string_view name() const { return n_; } ty::type::data const& type() const { return *t_; } std::shared_ptr<ty::type::data const> const& shared_type() const { return t_; } ty::type::data const* optional_type() const { return t_.get(); } criteria const& get_criteria() const { return c_; } bool is_resolved() const { return static_cast<bool>(t_); }
private: std::string n_; std::shared_ptr<ty::type::data const> t_; criteria c_; };
class provider { public: virtual ~provider() = default; virtual std::shared_ptr<declaration const> find(std::string_view) const = 0; };
class configurable_provider : public provider { public:
    std::shared_ptr<declaration> const& add(std::shared_ptr<declaration> d, bool = true) { return m_[std::string(d->name())] = std::move(d); } std::shared_ptr<declaration> const& add(declaration&& d, bool = true) { return add(std::make_shared<declaration>(std::move(d))); }
    std::shared_ptr<declaration const> find(std::string_view n) const override { auto i = m_.find(std::string(n)); return i == m_.end() ? nullptr : i->second; }
private: std::map<std::string, std::shared_ptr<declaration>> m_; };
}
namespace function {
enum class function_feature { scalar_function, table_valued_function };
inline std::ostream& operator<<(std::ostream& o, function_feature k) { return o << static_cast<int>(k); }
using function_feature_set = ty::util::enum_set<function_feature, function_feature::scalar_function, function_feature::table_valued_function>;
template<class T> std::shared_ptr<ty::type::data const> shr(T&& t) { return std::shared_ptr<ty::type::data const> { std::forward<T>(t).clone() }; }
class declaration { public:
    using definition_id_type = std::size_t; static constexpr definition_id_type minimum_builtin_function_id = 0; static constexpr definition_id_type minimum_system_function_id = 10000; static constexpr definition_id_type minimum_user_function_id = 20000;
    declaration(definition_id_type id, std::string n, std::shared_ptr<ty::type::data const> r, std::vector<std::shared_ptr<ty::type::data const>> p, function_feature_set f = { function_feature::scalar_function }, std::string d = {}) : id_(id), n_(std::move(n)), r_(std::move(r)), p_(std::move(p)), f_(f), d_(std::move(d)) {}
    declaration(definition_id_type id, std::string_view n, ty::type::data&& r, std::initializer_list<ty::util::rvalue_reference_wrapper<ty::type::data>> p, function_feature_set f = { function_feature::scalar_function }, std::string d = {}) : id_(id), n_(n), r_(r.clone()), f_(f), d_(std::move(d)) { for (auto&& e : p) { p_.emplace_back(e.as_ref().clone()); } }
    definition_id_type definition_id() const { return id_; } std::string_view name() const { return n_; } ty::type::data const& return_type() const { return *r_; } std::vector<std::shared_ptr<ty::type::data const>> const& shared_parameter_types() const { return p_; } function_feature_set const& features() const { return f_; } function_feature_set& features() { return f_; } std::string const& description() const { return d_; }
private: definition_id_type id_; std::string n_; std::shared_ptr<ty::type::data const> r_; std::vector<std::shared_ptr<ty::type::data const>> p_; function_feature_set f_; std::string d_; };
class provider { public: virtual ~provider() = default; using consumer_type = std::function<void(std::shared_ptr<declaration const> const&)>; virtual void each(std::string_view name, std::size_t n, consumer_type const& c) const = 0; virtual void each(consumer_type const& c) const = 0; };
class configurable_provider : public provider { public:
    std::shared_ptr<declaration> const& add(std::shared_ptr<declaration> d, bool = true) { v_.push_back(std::move(d)); return v_.back(); } std::shared_ptr<declaration> const& add(declaration&& d, bool = true) { return add(std::make_shared<declaration>(std::move(d))); }
    void each(std::string_view name, std::size_t n, consumer_type const& c) const override { for (auto&& d : v_) { if (d->name() == name && d->shared_parameter_types().size() == n) { c(d); } } }
    void each(consumer_type const& c) const override { for (auto&& d : v_) { c(d); } }
private: std::deque<std::shared_ptr<declaration>> v_; };
}
namespace aggregate {
class declaration { public:
    static constexpr std::string_view name_suffix_distinct = "$distinct"; using definition_id_type = std::size_t; static constexpr definition_id_type minimum_builtin_function_id = 0; static constexpr definition_id_type minimum_system_function_id = 10000; static constexpr definition_id_type minimum_user_function_id = 20000;
    declaration(definition_id_type id, std::string n, std::shared_ptr<ty::type::data const> r, std::vector<std::shared_ptr<ty::type::data const>> p, bool inc = false, std::string d = {}) : id_(id), n_(std::move(n)), r_(std::move(r)), p_(std::move(p)), i_(inc), d_(std::move(d)) {}
    declaration(definition_id_type id, std::string_view n, ty::type::data&& r, std::initializer_list<ty::util::rvalue_reference_wrapper<ty::type::data>> p, bool inc = false, std::string d = {}) : id_(id), n_(n), r_(r.clone()), i_(inc), d_(std::move(d)) { for (auto&& e : p) { p_.emplace_back(e.as_ref().clone()); } }
    definition_id_type definition_id() const { return id_; } std::string_view name() const { return n_; } ty::type::data const& return_type() const { return *r_; } std::vector<std::shared_ptr<ty::type::data const>> const& shared_parameter_types() const { return p_; } bool incremental() const { return i_; }
private: definition_id_type id_; std::string n_; std::shared_ptr<ty::type::data const> r_; std::vector<std::shared_ptr<ty::type::data const>> p_; bool i_; std::string d_; };
class provider { public: virtual ~provider() = default; using consumer_type = std::function<void(std::shared_ptr<declaration const> const&)>; virtual void each(std::string_view name, std::size_t n, consumer_type const& c) const = 0; virtual void each(consumer_type const& c) const = 0; };
class configurable_provider : public provider { public:
    std::shared_ptr<declaration> const& add(std::shared_ptr<declaration> d, bool = true) { v_.push_back(std::move(d)); return v_.back(); } std::shared_ptr<declaration> const& add(declaration&& d, bool = true) { return add(std::make_shared<declaration>(std::move(d))); }
    void each(std::string_view name, std::size_t n, consumer_type const& c) const override { for (auto&& d : v_) { if (d->name() == name && d->shared_parameter_types().size() == n) { c(d); } } }
    void each(consumer_type const& c) const override { for (auto&& d : v_) { c(d); } }
private: std::deque<std::shared_ptr<declaration>> v_; };
}
namespace storage {
enum class column_feature { synthesized, hidden, read_only };
inline std::ostream& operator<<(std::ostream& o, column_feature k) { return o << static_cast<int>(k); }
using column_feature_set = ty::util::enum_set<column_feature, column_feature::synthesized, column_feature::read_only>;
enum class index_feature { primary, find, scan, unique, unique_constraint };
inline std::ostream& operator<<(std::ostream& o, index_feature k) { return o << static_cast<int>(k); }
using index_feature_set = ty::util::enum_set<index_feature, index_feature::primary, index_feature::unique_constraint>;
enum class relation_kind { table, view };
enum class column_value_kind { nothing, immediate, function, sequence };
class sequence { public: using value_type = std::int64_t; static constexpr value_type default_initial_value = 0; static constexpr value_type default_increment_value = 1; static constexpr value_type default_min_value = 0; static constexpr value_type default_max_value = INT64_MAX;
    sequence(std::optional<std::size_t> id, std::string n, value_type i = 0, value_type inc = 1, value_type mn = 0, value_type mx = INT64_MAX, bool cyc = true, std::string d = {}) : id_(id), n_(std::move(n)), i_(i), inc_(inc), mn_(mn), mx_(mx), c_(cyc), d_(std::move(d)) {}
    std::string_view simple_name() const { return n_; } value_type initial_value() const { return i_; } value_type increment_value() const { return inc_; } value_type min_value() const { return mn_; } value_type max_value() const { return mx_; } bool cycle() const { return c_; }
private: std::optional<std::size_t> id_; std::string n_; value_type i_, inc_, mn_, mx_; bool c_; std::string d_; };
class column_value { public:
    column_value() = default; column_value(std::nullptr_t) {} 
    column_value(std::shared_ptr<ty::value::data const> v) : v_(std::move(v)) { if (!std::get<1>(v_)) { v_ = std::monostate {}; } } column_value(std::shared_ptr<function::declaration const> v) : v_(std::move(v)) {} column_value(std::shared_ptr<storage::sequence const> v) : v_(std::move(v)) {}
    template<class T, class = std::enable_if_t<std::is_base_of_v<ty::value::data, T>>> column_value(std::shared_ptr<T> v) : v_(std::shared_ptr<ty::value::data const>(std::move(v))) {}
    template<class = void> column_value(std::shared_ptr<storage::sequence> v) : v_(std::shared_ptr<storage::sequence const>(std::move(v))) {}
    column_value(ty::value::data&& v) : v_(std::shared_ptr<ty::value::data const>(v.clone())) {}
    column_value_kind kind() const { return static_cast<column_value_kind>(v_.index()); } explicit operator bool() const { return v_.index() != 0; }
    template<column_value_kind K> decltype(auto) element() const { return std::get<static_cast<std::size_t>(K)>(v_); }
    friend bool operator==(column_value const& a, column_value const& b) { if (a.kind() != b.kind()) { return false; } if (a.kind() == column_value_kind::immediate) { return *std::get<1>(a.v_) == *std::get<1>(b.v_); } return a.v_ == b.v_; }
    friend std::ostream& operator<<(std::ostream& o, column_value const& v) { o << static_cast<int>(v.kind()); if (v.v_.index() == 1) { o << *std::get<1>(v.v_); } return o; }
private: std::variant<std::monostate, std::shared_ptr<ty::value::data const>, std::shared_ptr<function::declaration const>, std::shared_ptr<storage::sequence const>> v_ {}; };
class column { public:
    column(std::string n, std::shared_ptr<ty::type::data const> t, variable::criteria c, column_value v, column_feature_set f = {}, std::string d = {}) : n_(std::move(n)), t_(std::move(t)), c_(c), v_(std::move(v)), f_(f), d_(std::move(d)) {}
    template<class T, class = std::enable_if_t<std::is_base_of_v<ty::type::data, T>>> column(std::string_view n, T const& t, variable::criteria c = {}, column_value v = {}, column_feature_set f = {}, std::string d = {}) : n_(n), t_(t.clone()), c_(c), v_(std::move(v)), f_(f), d_(std::move(d)) {}
    std::string_view simple_name() const { return n_; } ty::type::data const& type() const { return *t_; } std::shared_ptr<ty::type::data const> const& shared_type() const { return t_; } variable::criteria& criteria() { return c_; } variable::criteria const& criteria() const { return c_; } column_value& default_value() { return v_; } column_value const& default_value() const { return v_; } column_feature_set& features() { return f_; } column_feature_set const& features() const { return f_; } std::string const& description() const { return d_; }
    relation const& owner() const { return *o_; } optional_ptr<relation const> optional_owner() const { return optional_ptr<relation const>(o_); } void set_owner(relation* o) { o_ = o; }
    friend bool operator==(column const& a, column const& b) { return &a == &b; } friend bool operator!=(column const& a, column const& b) { return &a != &b; } friend std::ostream& operator<<(std::ostream& o, column const& c) { return o << c.n_; }
private: std::string n_; std::shared_ptr<ty::type::data const> t_; variable::criteria c_; column_value v_; column_feature_set f_; std::string d_; relation* o_ {}; };
class column_list_view { public: column_list_view(std::deque<column> const* d) : d_(d) {} std::size_t size() const { return d_->size(); } bool empty() const { return d_->empty(); } column const& operator[](std::size_t i) const { return d_->at(i); } column const& at(std::size_t i) const { return d_->at(i); } auto begin() const { return d_->begin(); } auto end() const { return d_->end(); } column const& front() const { return d_->front(); } column const& back() const { return d_->back(); } private: std::deque<column> const* d_; };
class relation { public: virtual ~relation() = default; virtual relation_kind kind() const = 0; virtual std::string_view simple_name() const = 0; virtual column_list_view columns() const = 0; optional_ptr<provider const> owner() const { return optional_ptr<provider const>(o_); } void set_provider(provider const* p) { o_ = p; }
    friend bool operator==(relation const& a, relation const& b) { return &a == &b; } friend std::ostream& operator<<(std::ostream& o, relation const& r) { return o << r.simple_name(); }
private: provider const* o_ {}; };
class table : public relation { public:
    static constexpr relation_kind tag = relation_kind::table;
    table(std::optional<std::size_t> id, std::string n, std::vector<std::unique_ptr<column>> c, std::string d = {}) : id_(id), n_(std::move(n)), d_(std::move(d)) { for (auto&& e : c) { c_.push_back(std::move(*e)); } fix(); }
    table(std::optional<std::size_t> id, std::string n, ty::util::reference_vector<column> c, std::string d = {}) : id_(id), n_(std::move(n)), d_(std::move(d)) { for (auto&& e : c) { c_.push_back(std::move(e)); } fix(); }
    table(std::string_view n, std::initializer_list<column> c) : n_(n) { for (auto&& e : c) { c_.push_back(e); } fix(); }
    table(std::optional<std::size_t> id, std::string_view n, std::initializer_list<column> c, std::string d = {}) : id_(id), n_(n), d_(std::move(d)) { for (auto&& e : c) { c_.push_back(e); } fix(); }
    table(table&& o) noexcept : id_(o.id_), n_(std::move(o.n_)), d_(std::move(o.d_)), c_(std::move(o.c_)) { fix(); }
    relation_kind kind() const override { return tag; } std::string_view simple_name() const override { return n_; } column_list_view columns() const override { return &c_; } std::deque<column>& columns() { return c_; } std::string const& description() const { return d_; } std::string& simple_name() { return n_; }
private: std::optional<std::size_t> id_ {}; std::string n_; std::string d_ {}; std::deque<column> c_ {}; void fix() { for (auto&& e : c_) { e.set_owner(this); } } };
class index_key { public: using direction_type = ty::relation::sort_direction; index_key(column const& c, direction_type d = direction_type::ascendant) : c_(&c), d_(d) {} column const& column() const { return *c_; } direction_type direction() const { return d_; } bool operator==(index_key const& o) const { return c_ == o.c_ && d_ == o.d_; } friend std::ostream& operator<<(std::ostream& o, index_key const& k) { return o << *k.c_; } private: storage::column const* c_; direction_type d_; };
class index { public: using key = index_key; using column_ref = std::reference_wrapper<column const>;
    index(std::optional<std::size_t> id, std::shared_ptr<storage::table const> t, std::string n, std::vector<key> k, std::vector<column_ref> v, index_feature_set f, std::string d = {}) : id_(id), t_(std::move(t)), n_(std::move(n)), k_(std::move(k)), v_(std::move(v)), f_(f), d_(std::move(d)) {}
    index(maybe_shared_ptr<storage::table const> t, std::string_view n, std::initializer_list<key> k = {}, std::initializer_list<column_ref> v = {}, index_feature_set f = {}) : t_(t.ownership()), n_(n), k_(k), v_(v), f_(f) {}
    storage::table const& table() const { return *t_; } std::shared_ptr<storage::table const> const& shared_table() const { return t_; } std::string_view simple_name() const { return n_; } std::vector<key>& keys() { return k_; } std::vector<key> const& keys() const { return k_; } std::vector<column_ref> const& values() const { return v_; } index_feature_set& features() { return f_; } index_feature_set const& features() const { return f_; } std::string const& description() const { return d_; }
    friend bool operator==(index const& a, index const& b) { return &a == &b; } friend std::ostream& operator<<(std::ostream& o, index const& r) { return o << r.n_; }
private: std::optional<std::size_t> id_ {}; std::shared_ptr<storage::table const> t_; std::string n_; std::vector<key> k_; std::vector<column_ref> v_; index_feature_set f_; std::string d_ {}; };
class provider { public: virtual ~provider() = default; using index_consumer_type = std::function<void(std::string_view, std::shared_ptr<index const> const&)>;
    virtual std::shared_ptr<relation const> find_relation(std::string_view) const = 0; virtual std::shared_ptr<table const> find_table(std::string_view) const = 0; virtual std::shared_ptr<index const> find_index(std::string_view) const = 0; virtual std::shared_ptr<index const> find_primary_index(table const&) const = 0; virtual void each_table_index(table const&, index_consumer_type const&) const = 0; virtual std::shared_ptr<sequence const> find_sequence(std::string_view) const { return {}; } };
class configurable_provider : public provider { public:
    std::shared_ptr<relation> const& add_relation(std::shared_ptr<relation> r, bool = true) { r->set_provider(this); return r_[std::string(r->simple_name())] = std::move(r); }
    std::shared_ptr<table> add_table(std::shared_ptr<table> t, bool = true) { add_relation(t); return t; } std::shared_ptr<table> add_table(table&& t, bool = true) { return add_table(std::make_shared<table>(std::move(t))); }
    std::shared_ptr<index> add_index(std::shared_ptr<index> i, bool = true) { i_[std::string(i->simple_name())] = i; return i; } std::shared_ptr<index> add_index(index&& i, bool = true) { return add_index(std::make_shared<index>(std::move(i))); }
    std::shared_ptr<relation const> find_relation(std::string_view n) const override { auto i = r_.find(std::string(n)); return i == r_.end() ? nullptr : i->second; } std::shared_ptr<table const> find_table(std::string_view n) const override { return std::dynamic_pointer_cast<table const>(find_relation(n)); } std::shared_ptr<index const> find_index(std::string_view n) const override { auto i = i_.find(std::string(n)); return i == i_.end() ? nullptr : i->second; }
    std::shared_ptr<index const> find_primary_index(table const& t) const override { for (auto&& [n, i] : i_) { if (&i->table() == &t && i->features().contains(index_feature::primary)) { return i; } } return {}; }
    void each_table_index(table const& t, index_consumer_type const& c) const override { for (auto&& [n, i] : i_) { if (&i->table() == &t) { c(n, i); } } }
    void remove_relation(std::string_view n) { r_.erase(std::string(n)); }
private: std::map<std::string, std::shared_ptr<relation>> r_; std::map<std::string, std::shared_ptr<index>> i_; };
}
namespace schema {
class declaration { public:
    declaration(std::string_view n, std::optional<std::size_t> id = {}, std::shared_ptr<storage::provider> s = {}, std::shared_ptr<variable::provider> v = {}, std::shared_ptr<function::provider> f = {}, std::shared_ptr<aggregate::provider> a = {}, std::shared_ptr<void> t = {}, std::string d = {}) : n_(std::move(n)), s_(std::move(s)), v_(std::move(v)), f_(std::move(f)), a_(std::move(a)) { (void) id; if (!s_) { s_ = std::make_shared<storage::configurable_provider>(); } if (!v_) { v_ = std::make_shared<variable::configurable_provider>(); } if (!f_) { f_ = std::make_shared<function::configurable_provider>(); } if (!a_) { a_ = std::make_shared<aggregate::configurable_provider>(); } }
    std::string_view name() const { return n_; } storage::provider const& storage_provider() const { return *s_; } std::shared_ptr<storage::provider> const& shared_storage_provider() const { return s_; } variable::provider const& variable_provider() const { return *v_; } function::provider const& function_provider() const { return *f_; } aggregate::provider const& set_function_provider() const { return *a_; }
    friend bool operator==(declaration const& a, declaration const& b) { return &a == &b; } friend std::ostream& operator<<(std::ostream& o, declaration const& r) { return o << r.n_; }
private: std::string n_; std::shared_ptr<storage::provider> s_; std::shared_ptr<variable::provider> v_; std::shared_ptr<function::provider> f_; std::shared_ptr<aggregate::provider> a_; };
class provider { public: virtual ~provider() = default; virtual std::shared_ptr<declaration const> find(std::string_view) const = 0; };
class configurable_provider : public provider { public:
    std::shared_ptr<declaration> const& add(std::shared_ptr<declaration> d, bool = true) { return m_[std::string(d->name())] = std::move(d); } std::shared_ptr<declaration> const& add(declaration&& d, bool = true) { return add(std::make_shared<declaration>(std::move(d))); }
    std::shared_ptr<declaration const> find(std::string_view n) const override { auto i = m_.find(std::string(n)); return i == m_.end() ? nullptr : i->second; }
private: std::map<std::string, std::shared_ptr<declaration>> m_; };
class catalog { public: catalog(std::string_view n, std::optional<std::size_t> = {}, std::shared_ptr<provider> p = {}) : n_(std::move(n)), p_(std::move(p)) {} std::string_view name() const { return n_; } provider const& schema_provider() const { return *p_; }
    friend bool operator==(catalog const& a, catalog const& b) { return &a == &b; } friend std::ostream& operator<<(std::ostream& o, catalog const& r) { return o << r.n_; }
private: std::string n_; std::shared_ptr<provider> p_; };
class search_path { public: using vector_type = std::vector<std::shared_ptr<declaration const>>; search_path() = default; explicit search_path(vector_type v) : v_(std::move(v)) {} search_path(std::initializer_list<std::shared_ptr<declaration>> l) { for (auto&& e : l) { v_.push_back(e); } } vector_type const& elements() const { return v_; } vector_type& elements() { return v_; } private: vector_type v_; };
}
namespace analyzer {
enum class expression_analyzer_code { unknown, unsupported_type, ambiguous_type, inconsistent_type, unresolved_variable, inconsistent_elements, inconsistent_function_type };
inline std::ostream& operator<<(std::ostream& o, expression_analyzer_code k) { return o << static_cast<int>(k); }
class variable_resolution { public: variable_resolution() = default; variable_resolution(std::shared_ptr<ty::type::data const> t) : t_(std::move(t)) {} variable_resolution(ty::type::data&& t) : t_(t.clone()) {} variable_resolution(storage::column const& c) : t_(c.shared_type()) {} variable_resolution(std::shared_ptr<variable::declaration const> d) : t_(d->shared_type()) {} variable_resolution(variable::declaration const& d) : t_(d.shared_type()) {} variable_resolution(ty::scalar::expression const&) {} variable_resolution(maybe_shared_ptr<ty::type::data const> t) : t_(t.shared()) {}
    bool is_resolved() const { return static_cast<bool>(t_); } explicit operator bool() const { return is_resolved(); } std::shared_ptr<ty::type::data const> const& shared_type() const { return t_; } private: std::shared_ptr<ty::type::data const> t_ {}; };
class variable_mapping { public: variable_resolution find(ty::descriptor::variable const& v) const { auto i = m_.find(v); return i == m_.end() ? variable_resolution {} : i->second; } void bind(ty::descriptor::variable const& v, variable_resolution r, bool = false) { m_[v] = std::move(r); } void clear() { m_.clear(); } private: std::unordered_map<ty::descriptor::variable, variable_resolution> m_; };
class expression_resolution { public: expression_resolution() = default; expression_resolution(std::shared_ptr<ty::type::data const> t) : t_(std::move(t)) {} ty::type::data const& type() const { return *t_; } bool is_resolved() const { return static_cast<bool>(t_); } private: std::shared_ptr<ty::type::data const> t_ {}; };
class expression_mapping { public: void clear() { m_.clear(); } void unbind(ty::scalar::expression const& e) { m_.erase(&e); } void bind(ty::scalar::expression const& e, expression_resolution r) { m_[&e] = std::move(r); } private: std::unordered_map<void const*, expression_resolution> m_; };
class expression_analyzer { public:
    using diagnostic_type = diagnostic<expression_analyzer_code>;
    std::shared_ptr<ty::type::data const> resolve(ty::scalar::expression const& e, bool validate, util::object_repository<ty::type::data>& r);
    bool resolve(ty::relation::expression const& e, bool validate, bool recursive, util::object_repository<ty::type::data>& r);
    bool has_diagnostics() const { return !d_.empty(); } std::vector<diagnostic_type> const& diagnostics() const { return d_; } void clear_diagnostics() { d_.clear(); } variable_mapping& variables() { return *v_; } variable_mapping const& variables() const { return *v_; } expression_mapping& expressions() { return *e_; } bool allow_unresolved() const { return au_; } expression_analyzer& allow_unresolved(bool b) { au_ = b; return *this; }
    maybe_shared_ptr<expression_mapping const> shared_expressions() const { return std::shared_ptr<expression_mapping const>(e_); } maybe_shared_ptr<variable_mapping const> shared_variables() const { return std::shared_ptr<variable_mapping const>(v_); }
private: std::vector<diagnostic_type> d_ {}; std::shared_ptr<variable_mapping> v_ { std::make_shared<variable_mapping>() }; std::shared_ptr<expression_mapping> e_ { std::make_shared<expression_mapping>() }; bool au_ {}; };
}
class compiled_info { public: compiled_info() = default; compiled_info(std::shared_ptr<analyzer::expression_mapping const> e, std::shared_ptr<analyzer::variable_mapping const> v) : e_(std::move(e)), v_(std::move(v)) {} private: std::shared_ptr<analyzer::expression_mapping const> e_; std::shared_ptr<analyzer::variable_mapping const> v_; };
namespace binding {
enum class variable_info_kind { table_column, exchange_column, frame_variable, stream_variable, local_variable, external_variable };
inline std::ostream& operator<<(std::ostream& o, variable_info_kind k) { return o << static_cast<int>(k); }
class variable_info { public: explicit variable_info(int k) : k_(static_cast<variable_info_kind>(k)) {} variable_info_kind kind() const { return k_; } private: variable_info_kind k_; };
inline variable_info unwrap(ty::descriptor::variable const& v) { return variable_info { v.entity_tag() }; }
template<class T> inline std::shared_ptr<void const> alias(T const& v) { return std::shared_ptr<void const>(std::shared_ptr<void const> {}, static_cast<void const*>(std::addressof(v))); }
class factory { public:
    ty::descriptor::variable stream_variable(std::string_view l = {}) const { return fresh(variable_info_kind::stream_variable, l); }
    ty::descriptor::variable stream_variable(ty::descriptor::variable const& v) const { return fresh(variable_info_kind::stream_variable, v.label()); }
    ty::descriptor::variable frame_variable(ty::descriptor::variable const& v) const { return fresh(variable_info_kind::frame_variable, v.label()); } ty::descriptor::variable frame_variable(std::string_view l = {}) const { return fresh(variable_info_kind::frame_variable, l); }
    ty::descriptor::variable local_variable(std::string_view l = {}) const { return fresh(variable_info_kind::local_variable, l); }
    ty::descriptor::variable table_column(storage::column const& c) const { return { alias(c), static_cast<int>(variable_info_kind::table_column), std::string(c.simple_name()) }; }
    ty::descriptor::variable external_variable(variable::declaration const& c) const { return { alias(c), static_cast<int>(variable_info_kind::external_variable), std::string(c.name()) }; }
    ty::descriptor::variable external_variable(std::shared_ptr<variable::declaration const> c) const { return { c, static_cast<int>(variable_info_kind::external_variable), std::string(c->name()) }; }
    ty::descriptor::relation index(std::shared_ptr<storage::index const> i, int) const { return ty::descriptor::relation { std::move(i) }; } ty::descriptor::relation index(storage::index const& i) const { return ty::descriptor::relation { alias(i) }; }
    template<class T> ty::descriptor::storage storage(std::shared_ptr<T> t) const { return ty::descriptor::storage { std::move(t) }; } template<class T> ty::descriptor::storage index(std::shared_ptr<T> t) const { return ty::descriptor::storage { std::move(t) }; } template<class T> ty::descriptor::storage storage(maybe_shared_ptr<T> t) const { return ty::descriptor::storage { t.shared() }; } template<class T> ty::descriptor::storage storage(T const& t) const { return ty::descriptor::storage { alias(t) }; }
    template<class T> ty::descriptor::schema schema(std::shared_ptr<T> t) const { return ty::descriptor::schema { std::move(t) }; } template<class T> ty::descriptor::schema schema(maybe_shared_ptr<T> t) const { return ty::descriptor::schema { std::shared_ptr<void const>(t.shared(), t.get()) }; } template<class T> ty::descriptor::schema schema(T const& t) const { return ty::descriptor::schema { alias(t) }; }
    ty::descriptor::variable operator()(storage::column const& c) const { return table_column(c); } ty::descriptor::variable operator()(std::shared_ptr<variable::declaration const> c) const { return external_variable(std::move(c)); } ty::descriptor::variable operator()(variable::declaration const& c) const { return external_variable(c); }
    ty::descriptor::relation operator()(std::shared_ptr<storage::index const> c) const { return ty::descriptor::relation { std::move(c) }; } ty::descriptor::relation operator()(storage::index const& c) const { return index(c); }
    ty::descriptor::storage operator()(std::shared_ptr<storage::table> c) const { return storage(std::move(c)); } ty::descriptor::storage operator()(std::shared_ptr<storage::index> c) const { return index(std::move(c)); }
    ty::descriptor::schema operator()(maybe_shared_ptr<schema::declaration const> c) const { return schema(std::move(c)); }
    ty::descriptor::function operator()(std::shared_ptr<function::declaration const> c) const { return ty::descriptor::function { std::move(c) }; } ty::descriptor::aggregate_function operator()(std::shared_ptr<aggregate::declaration const> c) const { return ty::descriptor::aggregate_function { std::move(c) }; }
    ty::descriptor::function function(std::shared_ptr<function::declaration const> c) const { return ty::descriptor::function { std::move(c) }; }
private: static ty::descriptor::variable fresh(variable_info_kind k, std::string_view l) { return { std::make_shared<int>(), static_cast<int>(k), std::string(l) }; } };
template<class T> struct ext_ { T const* p; };
template<class T = void, class D> inline decltype(auto) extract(D const& d) {
    if constexpr (std::is_same_v<T, void>) {
        if constexpr (std::is_same_v<D, ty::descriptor::variable>) { return *static_cast<storage::column const*>(d.entity()); }
        else if constexpr (std::is_same_v<D, ty::descriptor::relation>) { return *static_cast<storage::index const*>(d.entity()); }
        else if constexpr (std::is_same_v<D, ty::descriptor::schema>) { return *static_cast<schema::declaration const*>(d.entity()); }
        else if constexpr (std::is_same_v<D, ty::descriptor::function>) { return *static_cast<function::declaration const*>(d.entity()); }
        else if constexpr (std::is_same_v<D, ty::descriptor::aggregate_function>) { return *static_cast<aggregate::declaration const*>(d.entity()); }
        else { return *static_cast<storage::table const*>(d.entity()); }
    } else { return *static_cast<T const*>(d.entity()); }
}
template<class T, class D> inline optional_ptr<T const> extract_if(D const& d) {
    if constexpr (std::is_same_v<D, ty::descriptor::variable>) { if (std::is_same_v<std::remove_const_t<T>, storage::column> && d.entity_tag() != static_cast<int>(variable_info_kind::table_column)) { return {}; } }
    return optional_ptr<T const> { static_cast<T const*>(d.entity()) };
}
inline std::shared_ptr<function::declaration const> extract_shared(ty::descriptor::function const& d) { return std::static_pointer_cast<function::declaration const>(d.shared_entity()); }
template<class T, class D> inline std::shared_ptr<T const> extract_shared(D const& d) { return std::static_pointer_cast<T const>(d.shared_entity()); }
}
namespace type {
inline util::ternary is_parameter_application_convertible(ty::type::data const& a, ty::type::data const& p) { using k = ty::type::type_kind; if (p == a || a.kind() == k::unknown) { return util::ternary::yes; } if (p.kind() == a.kind() && p.kind() != k::table) { return util::ternary::yes; } auto num = [](k x) { return x >= k::int1 && x <= k::decimal; }; return num(p.kind()) && num(a.kind()) && a.kind() <= p.kind() ? util::ternary::yes : util::ternary::no; }
}
namespace extension::scalar {
using texpr = ty::scalar::expression;
enum class extension_kind : std::size_t { aggregate_function_call = 1, subquery, exists, quantified_compare };
template<class D, std::size_t I> class base : public ty::scalar::extension { public: static constexpr std::size_t extension_tag = I; std::size_t extension_id() const noexcept override { return I; } };
class aggregate_function_call : public base<aggregate_function_call, 1> { public:
    aggregate_function_call(ty::descriptor::aggregate_function f, ty::util::reference_vector<texpr> a) : f_(std::move(f)), a_(std::move(a)) {} aggregate_function_call(ty::descriptor::aggregate_function f, std::vector<std::unique_ptr<texpr>> a) : f_(std::move(f)), a_(std::move(a)) {}
    ty::descriptor::aggregate_function& function() { return f_; } ty::descriptor::aggregate_function const& function() const { return f_; } ty::util::reference_vector<texpr>& arguments() { return a_; } ty::util::reference_vector<texpr> const& arguments() const { return a_; }
    std::unique_ptr<texpr> do_clone() const override { return std::make_unique<aggregate_function_call>(*this); }
private: ty::descriptor::aggregate_function f_; ty::util::reference_vector<texpr> a_; };
using parameter_mapping = ty::relation::mapping2;
template<class D, std::size_t I> class sub_ : public base<D, I> { public: using parameter_type = parameter_mapping; using graph_type = ty::relation::graph_type;
    ty::relation::graph_type& query_graph() { return g_; } ty::relation::graph_type const& query_graph() const { return g_; } std::vector<parameter_type>& parameters() { return p_; } std::vector<parameter_type> const& parameters() const { return p_; } std::unique_ptr<texpr> do_clone() const override { std::abort(); } optional_ptr<ty::relation::expression::output_port_type> find_output_port() { for (auto&& e : g_) { for (auto&& o : e.output_ports()) { if (!o.opposite()) { return o; } } } return {}; }
protected: sub_(ty::relation::graph_type g, std::vector<parameter_type> p) : g_(std::move(g)), p_(std::move(p)) {} ty::relation::graph_type g_; std::vector<parameter_type> p_; };
class subquery : public sub_<subquery, 2> { public: subquery(ty::relation::graph_type g, std::vector<parameter_type> p, ty::descriptor::variable o) : sub_(std::move(g), std::move(p)), o_(std::move(o)) {} subquery(ty::relation::graph_type g, ty::descriptor::variable o) : sub_(std::move(g), {}), o_(std::move(o)) {} ty::descriptor::variable& output_column() { return o_; } ty::descriptor::variable const& output_column() const { return o_; } private: ty::descriptor::variable o_; };
class exists : public sub_<exists, 3> { public: exists(ty::relation::graph_type g, std::vector<parameter_type> p = {}) : sub_(std::move(g), std::move(p)) {} };
class quantified_compare : public sub_<quantified_compare, 4> { public: using slot = ty::scalar::slot;
    quantified_compare(ty::scalar::comparison_operator c, ty::scalar::quantifier q, std::unique_ptr<texpr> l, ty::relation::graph_type g, std::vector<parameter_type> p, ty::descriptor::variable rc) : sub_(std::move(g), std::move(p)), c_(c), q_(q), l_(std::move(l)), rc_(std::move(rc)) {}
    ty::scalar::comparison_operator operator_kind() const { return c_; } ty::scalar::quantifier quantifier() const { return q_; } texpr& left() { return *l_; } texpr const& left() const { return *l_; } ty::util::ownership_reference<texpr> ownership_left() { return ty::util::ownership_reference<texpr>(l_.get()); } ty::descriptor::variable& right_column() { return rc_; } ty::descriptor::variable const& right_column() const { return rc_; }
private: ty::scalar::comparison_operator c_; ty::scalar::quantifier q_; slot l_; ty::descriptor::variable rc_; };
}
namespace extension::relation {
enum class extension_kind : std::size_t { subquery = 1 };
class subquery : public ty::relation::intermediate::extension { public: using mapping_type = ty::relation::mapping2; static constexpr std::size_t extension_tag = 1; std::size_t extension_id() const noexcept override { return 1; }
    subquery(ty::relation::graph_type g, std::vector<mapping_type> m, bool c = false) : extension(0, 1), g_(std::move(g)), m_(std::move(m)), c_(c) {} ty::relation::graph_type& query_graph() { return g_; } ty::relation::graph_type const& query_graph() const { return g_; } std::vector<mapping_type>& mappings() { return m_; } std::vector<mapping_type> const& mappings() const { return m_; } bool is_clone() const { return c_; } output_port_type& output() { return out_.at(0); } output_port_type const& output() const { return out_.at(0); } optional_ptr<output_port_type> find_output_port() { for (auto&& e : g_) { for (auto&& o : e.output_ports()) { if (!o.opposite()) { return o; } } } return {}; }
private: ty::relation::graph_type g_; std::vector<mapping_type> m_; bool c_; };
}
namespace analyzer {
// A small type resolver: enough to give every expression mizugaki builds some type.
inline std::shared_ptr<ty::type::data const> expression_analyzer::resolve(ty::scalar::expression const& e, bool validate, util::object_repository<ty::type::data>& r) {
    namespace s = ty::scalar; using k = s::expression_kind;
    auto bad = [&](expression_analyzer_code c, std::string m) -> std::shared_ptr<ty::type::data const> { d_.emplace_back(c, std::move(m), e.region()); return {}; };
    auto b = [] { return std::make_shared<ty::type::boolean const>(); };
    switch (e.kind()) {
        case k::immediate: return static_cast<s::immediate const&>(e).shared_type();
        case k::variable_reference: { auto x = v_->find(static_cast<s::variable_reference const&>(e).variable()); if (x) { return x.shared_type(); } auto&& d = static_cast<s::variable_reference const&>(e).variable(); if (d.entity_tag() == static_cast<int>(binding::variable_info_kind::external_variable)) { return static_cast<variable::declaration const*>(d.entity())->shared_type(); } if (d.entity_tag() == static_cast<int>(binding::variable_info_kind::table_column)) { return static_cast<storage::column const*>(d.entity())->shared_type(); } return bad(expression_analyzer_code::unresolved_variable, "unresolved variable"); }
        case k::cast: { auto&& x = static_cast<s::cast const&>(e); if (!resolve(x.operand(), validate, r)) { return {}; } return x.shared_type(); }
        case k::unary: { auto&& x = static_cast<s::unary const&>(e); auto t = resolve(x.operand(), validate, r); if (!t) { return {}; } if (x.operator_kind() == s::unary_operator::plus || x.operator_kind() == s::unary_operator::sign_inversion) { return t; } if (x.operator_kind() == s::unary_operator::length) { return std::make_shared<ty::type::int4 const>(); } return b(); }
        case k::binary: { auto&& x = static_cast<s::binary const&>(e); auto l = resolve(x.left(), validate, r); auto q = resolve(x.right(), validate, r); if (!l || !q) { return {}; } if (x.operator_kind() >= s::binary_operator::conditional_and) { return b(); } return l->kind() >= q->kind() ? l : q; }
        case k::compare: { auto&& x = static_cast<s::compare const&>(e); auto l = resolve(x.left(), validate, r); auto q = resolve(x.right(), validate, r); if (!l || !q) { return {}; } return b(); }
        case k::match: { auto&& x = static_cast<s::match const&>(e); if (!resolve(x.input(), validate, r) || !resolve(x.pattern(), validate, r)) { return {}; } return b(); }
        case k::conditional: { auto&& x = static_cast<s::conditional const&>(e); std::shared_ptr<ty::type::data const> t; for (auto&& a : x.alternatives()) { if (!resolve(a.condition(), validate, r)) { return {}; } t = resolve(a.body(), validate, r); if (!t) { return {}; } } return t; }
        case k::coalesce: { std::shared_ptr<ty::type::data const> t; for (auto&& a : static_cast<s::coalesce const&>(e).alternatives()) { t = resolve(a, validate, r); if (!t) { return {}; } } return t; }
        case k::let: { auto&& x = static_cast<s::let const&>(e); for (auto&& v : x.variables()) { auto t = resolve(v.value(), validate, r); if (!t) { return {}; } v_->bind(v.variable(), t); } return resolve(x.body(), validate, r); }
        case k::function_call: { auto&& x = static_cast<s::function_call const&>(e); for (auto&& a : x.arguments()) { if (!resolve(a, validate, r)) { return {}; } } return function::shr(binding::extract_shared(x.function())->return_type()); }
        case k::extension: { auto&& x = static_cast<s::extension const&>(e);
            if (x.extension_id() == 1) { auto&& c = static_cast<extension::scalar::aggregate_function_call const&>(x); for (auto&& a : c.arguments()) { if (!resolve(a, validate, r)) { return {}; } } return function::shr(static_cast<aggregate::declaration const*>(c.function().entity())->return_type()); }
            if (x.extension_id() == 2) { auto&& c = static_cast<extension::scalar::subquery const&>(x); auto t = v_->find(c.output_column()); if (t) { return t.shared_type(); } return bad(expression_analyzer_code::unresolved_variable, "unresolved column"); }
            return b(); }
    }
    return {};
}
inline bool expression_analyzer::resolve(ty::relation::expression const& e, bool validate, bool, util::object_repository<ty::type::data>& r) {
    namespace rel = ty::relation; using k = rel::expression_kind;
    auto bindcol = [&](ty::descriptor::variable const& s, ty::descriptor::variable const& d) { if (s.entity_tag() == static_cast<int>(binding::variable_info_kind::table_column)) { v_->bind(d, static_cast<storage::column const*>(s.entity())->shared_type()); } else { v_->bind(d, v_->find(s)); } };
    switch (e.kind()) {
        case k::scan: for (auto&& c : static_cast<rel::scan const&>(e).columns()) { bindcol(c.source(), c.destination()); } break;
        case k::values: { auto&& x = static_cast<rel::values const&>(e); for (auto&& row : x.rows()) { for (std::size_t i = 0; i < row.elements().size(); ++i) { auto t = resolve(row.elements()[i], validate, r); if (!t) { return false; } if (i < x.columns().size()) { v_->bind(x.columns()[i], t); } } } break; }
        case k::project: for (auto&& c : static_cast<rel::project const&>(e).columns()) { auto t = resolve(c.value(), validate, r); if (!t) { return false; } v_->bind(c.variable(), t); } break;
        case k::filter: { if (!validate) { break; } auto t = resolve(static_cast<rel::filter const&>(e).condition(), validate, r); if (!t) { return false; } if (t->kind() != ty::type::type_kind::boolean && t->kind() != ty::type::type_kind::unknown) { d_.emplace_back(expression_analyzer_code::inconsistent_type, "boolean required", e.region()); return false; } break; }
        case k::apply: { auto&& x = static_cast<rel::apply const&>(e); auto&& f = *static_cast<function::declaration const*>(x.function().entity()); auto&& t = static_cast<ty::type::table const&>(f.return_type()); for (auto&& c : x.columns()) { v_->bind(c.variable(), t.columns().at(c.position()).shared_type()); } break; }
        case k::intermediate_aggregate: for (auto&& c : static_cast<rel::intermediate::aggregate const&>(e).columns()) { v_->bind(c.destination(), function::shr(static_cast<aggregate::declaration const*>(c.function().entity())->return_type())); } break;
        case k::intermediate_union: for (auto&& m : static_cast<rel::intermediate::union_ const&>(e).mappings()) { auto t = m.left() ? v_->find(*m.left()) : v_->find(*m.right()); v_->bind(m.destination(), t); } break;
        case k::intermediate_join: { auto&& x = static_cast<rel::intermediate::join const&>(e); if (auto c = x.condition()) { if (!resolve(*c, validate, r)) { return false; } } break; }
        case k::intermediate_extension: for (auto&& m : static_cast<extension::relation::subquery const&>(e).mappings()) { v_->bind(m.destination(), v_->find(m.source())); } break;
        default: break;
    }
    return true;
}
}
}
