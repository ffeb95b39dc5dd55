// Stand-ins for takatori scalar expressions, relational operators and statements.
#pragma once
#include "ty_core.h"

namespace takatori::scalar {
enum class expression_kind { immediate, variable_reference, unary, cast, binary, compare, match, conditional, coalesce, let, function_call, extension };
inline std::ostream& operator<<(std::ostream& o, expression_kind k) { return o << static_cast<int>(k); }
using ::takatori::util::reference_vector;
using ::takatori::util::ownership_reference;
using ::takatori::util::optional_ptr;
class expression {
public:
    virtual ~expression() = default;
    virtual expression_kind kind() const noexcept = 0;
    virtual std::unique_ptr<expression> do_clone() const = 0;
    std::unique_ptr<expression> clone() const& { return do_clone(); }
    std::unique_ptr<expression> clone() && { return do_clone(); }
    ::takatori::document::region& region() noexcept { return r_; }
    ::takatori::document::region const& region() const noexcept { return r_; }
    virtual std::ostream& print(std::ostream& o) const { return o; }
    virtual bool equals(expression const&) const { return false; }
    friend bool operator==(expression const& a, expression const& b) { return a.kind() == b.kind() && a.equals(b); }
    friend bool operator!=(expression const& a, expression const& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& o, expression const& e) { o << "expr(" << e.kind() << ":"; return e.print(o) << ")"; }
private: ::takatori::document::region r_ {};
};
template<class D, expression_kind K> class base : public expression {
public:
    static constexpr expression_kind tag = K;
    expression_kind kind() const noexcept override { return K; }
    std::unique_ptr<expression> do_clone() const override { return std::make_unique<D>(static_cast<D const&>(*this)); }
};
using uptr = std::unique_ptr<expression>;
// owned operand slot, deep copied
class slot {
public:
    slot() = default; slot(uptr p) : p_(std::move(p)) {} slot(expression&& e) : p_(std::move(e).clone()) {} // NOLINT
    slot(slot const& o) : p_(o.p_ ? o.p_->clone() : nullptr) {} slot(slot&&) noexcept = default; slot& operator=(slot&&) noexcept = default;
    slot& operator=(slot const& o) { p_ = o.p_ ? o.p_->clone() : nullptr; return *this; }
    expression& operator*() const { return *p_; } explicit operator bool() const { return static_cast<bool>(p_); } uptr& get() { return p_; } expression* raw() const { return p_.get(); }
    bool operator==(slot const& o) const { return (!p_ && !o.p_) || (p_ && o.p_ && *p_ == *o.p_); }
private: uptr p_ {};
};
#define TYS_SLOT(N) \
    expression& N() { return *N##_; } expression const& N() const { return *N##_; } \
    optional_ptr<expression> optional_##N() { return optional_ptr<expression>(N##_.raw()); } \
    ownership_reference<expression> ownership_##N() { return ownership_reference<expression>(N##_.get()); } \
    uptr release_##N() { return std::move(N##_.get()); }
class immediate : public base<immediate, expression_kind::immediate> {
public:
    immediate(std::shared_ptr<value::data const> v, std::shared_ptr<type::data const> t) : v_(std::move(v)), t_(std::move(t)) {}
    immediate(value::data&& v, type::data&& t) : v_(v.clone()), t_(t.clone()) {}
    value::data const& value() const { return *v_; } std::shared_ptr<value::data const> const& shared_value() const { return v_; }
    type::data const& type() const { return *t_; } std::shared_ptr<type::data const> const& shared_type() const { return t_; }
    immediate& value(std::shared_ptr<value::data const> v) { v_ = std::move(v); return *this; } immediate& type(std::shared_ptr<type::data const> v) { t_ = std::move(v); return *this; }
    optional_ptr<value::data const> optional_value() const { return optional_ptr<value::data const>(v_.get()); } optional_ptr<type::data const> optional_type() const { return optional_ptr<type::data const>(t_.get()); }
    bool equals(expression const& o) const override { auto& p = static_cast<immediate const&>(o); return *v_ == *p.v_ && *t_ == *p.t_; }
    std::ostream& print(std::ostream& o) const override { return o << *v_ << *t_; }
private: std::shared_ptr<value::data const> v_; std::shared_ptr<type::data const> t_;
};
class variable_reference : public base<variable_reference, expression_kind::variable_reference> {
public:
    explicit variable_reference(descriptor::variable v) : v_(std::move(v)) {}
    descriptor::variable& variable() { return v_; } descriptor::variable const& variable() const { return v_; }
    bool equals(expression const& o) const override { return v_ == static_cast<variable_reference const&>(o).v_; }
    std::ostream& print(std::ostream& o) const override { return o << v_; }
private: descriptor::variable v_;
};
enum class cast_loss_policy { ignore, floor, ceil, unknown, warn, error, implicit };
class cast : public base<cast, expression_kind::cast> {
public:
    using loss_policy_type = cast_loss_policy;
    cast(std::shared_ptr<type::data const> t, loss_policy_type p, uptr o) : t_(std::move(t)), p_(p), operand_(std::move(o)) {}
    cast(type::data&& t, loss_policy_type p, expression&& o) : t_(t.clone()), p_(p), operand_(std::move(o)) {}
    type::data const& type() const { return *t_; } std::shared_ptr<type::data const> const& shared_type() const { return t_; } loss_policy_type loss_policy() const { return p_; }
    TYS_SLOT(operand)
    bool equals(expression const& o) const override { auto& x = static_cast<cast const&>(o); return *t_ == *x.t_ && p_ == x.p_ && operand_ == x.operand_; }
private: std::shared_ptr<type::data const> t_; loss_policy_type p_; slot operand_;
};
enum class unary_operator { plus, sign_inversion, conditional_not, length, is_null, is_true, is_false, is_unknown };
enum class binary_operator { concat, add, subtract, multiply, divide, remainder, conditional_and, conditional_or };
enum class comparison_operator { equal, not_equal, less, less_equal, greater, greater_equal };
enum class match_operator { like, similar };
enum class quantifier { all, any };
inline std::ostream& operator<<(std::ostream& o, unary_operator k) { return o << static_cast<int>(k); }
inline std::ostream& operator<<(std::ostream& o, binary_operator k) { return o << static_cast<int>(k); }
inline std::ostream& operator<<(std::ostream& o, comparison_operator k) { return o << static_cast<int>(k); }
inline std::ostream& operator<<(std::ostream& o, match_operator k) { return o << static_cast<int>(k); }
inline std::ostream& operator<<(std::ostream& o, quantifier k) { return o << static_cast<int>(k); }
class unary : public base<unary, expression_kind::unary> {
public:
    using operator_kind_type = unary_operator;
    unary(unary_operator k, uptr o) : k_(k), operand_(std::move(o)) {} unary(unary_operator k, expression&& o) : k_(k), operand_(std::move(o)) {}
    unary_operator operator_kind() const { return k_; } TYS_SLOT(operand)
    bool equals(expression const& o) const override { auto& x = static_cast<unary const&>(o); return k_ == x.k_ && operand_ == x.operand_; }
private: unary_operator k_; slot operand_;
};
template<class D, expression_kind K, class O> class bin : public base<D, K> {
public:
    bin(O k, uptr l, uptr r) : k_(k), left_(std::move(l)), right_(std::move(r)) {} bin(O k, expression&& l, expression&& r) : k_(k), left_(std::move(l)), right_(std::move(r)) {}
    O operator_kind() const { return k_; } TYS_SLOT(left) TYS_SLOT(right)
    bool equals(expression const& o) const override { auto& x = static_cast<bin const&>(o); return k_ == x.k_ && left_ == x.left_ && right_ == x.right_; }
private: O k_; slot left_; slot right_;
};
class binary : public bin<binary, expression_kind::binary, binary_operator> { public: using bin::bin; using operator_kind_type = binary_operator; };
class compare : public bin<compare, expression_kind::compare, comparison_operator> { public: using bin::bin; using operator_kind_type = comparison_operator; };
class match : public base<match, expression_kind::match> {
public:
    match(match_operator k, uptr i, uptr p, uptr e) : k_(k), input_(std::move(i)), pattern_(std::move(p)), escape_(std::move(e)) {}
    match(match_operator k, expression&& i, expression&& p, expression&& e) : k_(k), input_(std::move(i)), pattern_(std::move(p)), escape_(std::move(e)) {}
    match_operator operator_kind() const { return k_; } TYS_SLOT(input) TYS_SLOT(pattern) TYS_SLOT(escape)
    bool equals(expression const& o) const override { auto& x = static_cast<match const&>(o); return k_ == x.k_ && input_ == x.input_ && pattern_ == x.pattern_ && escape_ == x.escape_; }
private: match_operator k_; slot input_; slot pattern_; slot escape_;
};
class conditional_alternative {
public:
    conditional_alternative(uptr c, uptr b) : condition_(std::move(c)), body_(std::move(b)) {} conditional_alternative(expression&& c, expression&& b) : condition_(std::move(c)), body_(std::move(b)) {}
    TYS_SLOT(condition) TYS_SLOT(body)
    bool operator==(conditional_alternative const& o) const { return condition_ == o.condition_ && body_ == o.body_; }
private: slot condition_; slot body_;
};
class conditional : public base<conditional, expression_kind::conditional> {
public:
    using alternative = conditional_alternative;
    conditional(std::vector<alternative> a, uptr d) : a_(std::move(a)), d_(std::move(d)) {}
    conditional(std::initializer_list<alternative> a, expression&& d) : a_(a), d_(std::move(d)) {}
    conditional(std::initializer_list<alternative> a) : a_(a) {}
    std::vector<alternative>& alternatives() { return a_; } std::vector<alternative> const& alternatives() const { return a_; }
    optional_ptr<expression> default_expression() { return optional_ptr<expression>(d_.raw()); } optional_ptr<expression const> default_expression() const { return optional_ptr<expression const>(d_.raw()); }
    ownership_reference<expression> ownership_default_expression() { return ownership_reference<expression>(d_.get()); }
    bool equals(expression const& o) const override { auto& x = static_cast<conditional const&>(o); return a_ == x.a_ && d_ == x.d_; }
private: std::vector<alternative> a_; slot d_;
};
inline bool same_all(reference_vector<expression> const& a, reference_vector<expression> const& b) { if (a.size() != b.size()) { return false; } for (std::size_t i = 0; i < a.size(); ++i) { if (a[i] != b[i]) { return false; } } return true; }
class coalesce : public base<coalesce, expression_kind::coalesce> {
public:
    explicit coalesce(reference_vector<expression> a) : a_(std::move(a)) {} explicit coalesce(std::vector<uptr> a) : a_(std::move(a)) {}
    reference_vector<expression>& alternatives() { return a_; } reference_vector<expression> const& alternatives() const { return a_; }
    bool equals(expression const& o) const override { return same_all(a_, static_cast<coalesce const&>(o).a_); }
private: reference_vector<expression> a_;
};
class variable_declarator {
public:
    variable_declarator(descriptor::variable v, uptr e) : v_(std::move(v)), value_(std::move(e)) {} variable_declarator(descriptor::variable v, expression&& e) : v_(std::move(v)), value_(std::move(e)) {}
    descriptor::variable& variable() { return v_; } descriptor::variable const& variable() const { return v_; } TYS_SLOT(value)
private: descriptor::variable v_; slot value_;
};
class let : public base<let, expression_kind::let> {
public:
    using variable = variable_declarator; using declarator = variable_declarator;
    let(std::vector<variable> v, uptr b) : v_(std::move(v)), body_(std::move(b)) {}
    std::vector<variable>& variables() { return v_; } std::vector<variable> const& variables() const { return v_; } TYS_SLOT(body)
private: std::vector<variable> v_; slot body_;
};
class function_call : public base<function_call, expression_kind::function_call> {
public:
    function_call(descriptor::function f, reference_vector<expression> a) : f_(std::move(f)), a_(std::move(a)) {} function_call(descriptor::function f, std::vector<uptr> a) : f_(std::move(f)), a_(std::move(a)) {}
    descriptor::function& function() { return f_; } descriptor::function const& function() const { return f_; }
    reference_vector<expression>& arguments() { return a_; } reference_vector<expression> const& arguments() const { return a_; }
    bool equals(expression const& o) const override { auto& x = static_cast<function_call const&>(o); return f_ == x.f_ && same_all(a_, x.a_); }
private: descriptor::function f_; reference_vector<expression> a_;
};
class extension : public expression {
public:
    using extension_id_type = std::size_t; static constexpr expression_kind tag = expression_kind::extension;
    expression_kind kind() const noexcept override { return expression_kind::extension; }
    virtual extension_id_type extension_id() const noexcept = 0;
};
template<class F, class E, class... A>
inline decltype(auto) dispatch_(F& f, E& e, A&&... a) {
#define TYS_D(T) case expression_kind::T: return f(static_cast<std::conditional_t<std::is_const_v<E>, T const&, T&>>(e), std::forward<A>(a)...);
    switch (e.kind()) { TYS_D(immediate) TYS_D(variable_reference) TYS_D(unary) TYS_D(cast) TYS_D(binary) TYS_D(compare) TYS_D(match) TYS_D(conditional) TYS_D(coalesce) TYS_D(let) TYS_D(function_call) TYS_D(extension) }
    std::abort();
#undef TYS_D
}
template<class F, class... A> inline decltype(auto) dispatch(F&& f, expression& e, A&&... a) { return dispatch_(f, e, std::forward<A>(a)...); }
template<class F, class... A> inline decltype(auto) dispatch(F&& f, expression const& e, A&&... a) { return dispatch_(f, e, std::forward<A>(a)...); }
template<class V, class X, class... A> inline bool pre_(V& v, X& x, A&&... a) { if constexpr (std::is_void_v<decltype(v(x, a...))>) { v(x, a...); return true; } else { return v(x, a...); } }
template<class V, class... A> inline void walk(V&& v, expression& e, A&&... a);
struct walker_ {
    template<class V, class... A> static void go(V& v, expression& e, A&&... a) {
        struct d { V& v; 
            void operator()(immediate& x, A&... a) { pre_(v, x, a...); } void operator()(variable_reference& x, A&... a) { pre_(v, x, a...); }
            void operator()(unary& x, A&... a) { if (pre_(v, x, a...)) go(v, x.operand(), a...); } void operator()(cast& x, A&... a) { if (pre_(v, x, a...)) go(v, x.operand(), a...); }
            void operator()(binary& x, A&... a) { if (pre_(v, x, a...)) { go(v, x.left(), a...); go(v, x.right(), a...); } } void operator()(compare& x, A&... a) { if (pre_(v, x, a...)) { go(v, x.left(), a...); go(v, x.right(), a...); } }
            void operator()(match& x, A&... a) { if (pre_(v, x, a...)) { go(v, x.input(), a...); go(v, x.pattern(), a...); go(v, x.escape(), a...); } }
            void operator()(conditional& x, A&... a) { if (pre_(v, x, a...)) { for (auto&& e : x.alternatives()) { go(v, e.condition(), a...); go(v, e.body(), a...); } if (x.default_expression()) { go(v, *x.default_expression(), a...); } } }
            void operator()(coalesce& x, A&... a) { if (pre_(v, x, a...)) { for (auto&& e : x.alternatives()) { go(v, e, a...); } } }
            void operator()(let& x, A&... a) { if (pre_(v, x, a...)) { for (auto&& e : x.variables()) { go(v, e.value(), a...); } go(v, x.body(), a...); } }
            void operator()(function_call& x, A&... a) { if (pre_(v, x, a...)) { for (auto&& e : x.arguments()) { go(v, e, a...); } } }
            void operator()(extension& x, A&... a) { pre_(v, x, a...); }
        };
        d f { v }; dispatch_(f, e, a...);
    }
};
template<class V, class... A> inline void walk(V&& v, expression& e, A&&... a) { walker_::go(v, e, a...); }
template<class V, class... A> inline void walk(V&& v, expression const& e, A&&... a) { walker_::go(v, const_cast<expression&>(e), a...); }
}

namespace takatori::relation {
using scalar::slot;
using uexpr = std::unique_ptr<scalar::expression>;
using ::takatori::util::optional_ptr;
using ::takatori::util::ownership_reference;
enum class expression_kind { find, scan, values, join_find, join_scan, apply, project, filter, buffer, identify, emit, write, intermediate_join, intermediate_aggregate, intermediate_distinct, intermediate_limit, intermediate_union, intermediate_intersection, intermediate_difference, intermediate_escape, intermediate_extension };
inline std::ostream& operator<<(std::ostream& o, expression_kind k) { return o << static_cast<int>(k); }
class expression;
template<int D> class port {
public:
    using opposite_type = port<1 - D>;
    explicit port(expression& o) : o_(&o) {}
    void connect_to(opposite_type& p) { op_ = &p; p.set(this); } void connect_to(opposite_type& p, int) { connect_to(p); }
    void disconnect_from(opposite_type& p) { op_ = nullptr; p.set(nullptr); } void disconnect() { if (op_) { op_->set(nullptr); op_ = nullptr; } }
    optional_ptr<opposite_type> opposite() const { return optional_ptr<opposite_type>(op_); }
    expression& owner() const { return *o_; } void set(opposite_type* p) { op_ = p; }
    port& operator<<(opposite_type& p) { connect_to(p); return *this; } port& operator>>(opposite_type& p) { connect_to(p); return *this; }
private: expression* o_; opposite_type* op_ {};
};
class expression {
public:
    using input_port_type = port<0>; using output_port_type = port<1>;
    virtual ~expression() = default;
    virtual expression_kind kind() const noexcept = 0;
    ::takatori::document::region& region() noexcept { return r_; } ::takatori::document::region const& region() const noexcept { return r_; }
    std::vector<input_port_type>& input_ports() { return in_; } std::vector<input_port_type> const& input_ports() const { return in_; }
    std::vector<output_port_type>& output_ports() { return out_; } std::vector<output_port_type> const& output_ports() const { return out_; }
    friend std::ostream& operator<<(std::ostream& o, expression const& e) { return o << "op(" << e.kind() << ")"; }
    expression(expression const&) = delete; expression(expression&&) = delete;
protected:
    expression(int i, int o) { in_.reserve(2); for (int k = 0; k < i; ++k) { in_.emplace_back(*this); } for (int k = 0; k < o; ++k) { out_.emplace_back(*this); } }
    std::vector<input_port_type> in_ {}; std::vector<output_port_type> out_ {};
private: ::takatori::document::region r_ {};
};
template<class D, expression_kind K, int I, int O> class base : public expression {
public:
    static constexpr expression_kind tag = K;
    expression_kind kind() const noexcept override { return K; }
    base() : expression(I, O) {}
    input_port_type& input() { return in_.at(0); } input_port_type const& input() const { return in_.at(0); }
    output_port_type& output() { return out_.at(0); } output_port_type const& output() const { return out_.at(0); }
    input_port_type& left() { return in_.at(0); } input_port_type& right() { return in_.at(1); }
    input_port_type const& left() const { return in_.at(0); } input_port_type const& right() const { return in_.at(1); }
    optional_ptr<output_port_type> find_output_port() { if (out_.empty()) { return {}; } return out_[0]; }
};
class graph_type {
public:
    template<class T> T& insert(std::unique_ptr<T> p) { auto& r = *p; v_.push_back(std::move(p)); return r; }
    template<class T, class... A> T& emplace(A&&... a) { return insert(std::make_unique<T>(std::forward<A>(a)...)); }
    void clear() { v_.clear(); } bool empty() const { return v_.empty(); } std::size_t size() const { return v_.size(); }
    class iter { public: using I = std::vector<std::unique_ptr<expression>>::const_iterator; explicit iter(I i) : i_(i) {} expression& operator*() const { return **i_; } iter& operator++() { ++i_; return *this; } bool operator!=(iter o) const { return i_ != o.i_; } private: I i_; };
    iter begin() const { return iter(v_.begin()); } iter end() const { return iter(v_.end()); }
    void merge(graph_type&& o) { for (auto&& e : o.v_) { v_.push_back(std::move(e)); } o.v_.clear(); }
    bool contains(expression const& e) const { for (auto&& p : v_) { if (p.get() == &e) { return true; } } return false; }
private: std::vector<std::unique_ptr<expression>> v_ {};
};
inline void merge_into(graph_type&& s, graph_type& d) { d.merge(std::move(s)); }
inline void merge_into(graph_type const&, graph_type&) { throw std::logic_error("stub: merge_into(copy)"); }

enum class join_kind { inner, left_outer, left_outer_at_most_one, right_outer, full_outer, semi, anti };
enum class set_quantifier { all, distinct };
enum class sort_direction { ascendant, descendant };
enum class apply_kind { cross, outer };
enum class write_kind { insert, insert_overwrite, insert_skip, update, delete_ };
inline std::ostream& operator<<(std::ostream& o, join_kind k) { return o << static_cast<int>(k); }
inline std::ostream& operator<<(std::ostream& o, set_quantifier k) { return o << static_cast<int>(k); }
inline std::ostream& operator<<(std::ostream& o, sort_direction k) { return o << static_cast<int>(k); }
inline std::ostream& operator<<(std::ostream& o, apply_kind k) { return o << static_cast<int>(k); }
inline std::ostream& operator<<(std::ostream& o, write_kind k) { return o << static_cast<int>(k); }
struct mapping2 {
    mapping2(descriptor::variable s, descriptor::variable d) : s_(std::move(s)), d_(std::move(d)) {}
    descriptor::variable& source() { return s_; } descriptor::variable const& source() const { return s_; } descriptor::variable& destination() { return d_; } descriptor::variable const& destination() const { return d_; }
    bool operator==(mapping2 const& o) const { return s_ == o.s_ && d_ == o.d_; }
private: descriptor::variable s_; descriptor::variable d_;
};
class emit : public base<emit, expression_kind::emit, 1, 0> {
public:
    class column { public: column(descriptor::variable s, std::optional<std::string> n = {}) : s_(std::move(s)), n_(std::move(n)) {} descriptor::variable const& source() const { return s_; } std::optional<std::string> const& name() const { return n_; } private: descriptor::variable s_; std::optional<std::string> n_; };
    explicit emit(std::vector<column> c) : c_(std::move(c)) {} std::vector<column>& columns() { return c_; } std::vector<column> const& columns() const { return c_; }
private: std::vector<column> c_;
};
class filter : public base<filter, expression_kind::filter, 1, 1> {
public: explicit filter(uexpr c) : condition_(std::move(c)) {}
    scalar::expression& condition() { return *condition_; } scalar::expression const& condition() const { return *condition_; } ownership_reference<scalar::expression> ownership_condition() { return ownership_reference<scalar::expression>(condition_.get()); }
private: slot condition_;
};
class project : public base<project, expression_kind::project, 1, 1> {
public:
    class column { public: column(uexpr e, descriptor::variable v) : value_(std::move(e)), v_(std::move(v)) {} column(descriptor::variable v, uexpr e) : value_(std::move(e)), v_(std::move(v)) {}
        scalar::expression& value() { return *value_; } scalar::expression const& value() const { return *value_; } descriptor::variable& variable() { return v_; } descriptor::variable const& variable() const { return v_; } ownership_reference<scalar::expression> ownership_value() { return ownership_reference<scalar::expression>(value_.get()); }
        private: slot value_; descriptor::variable v_; };
    explicit project(std::vector<column> c) : c_(std::move(c)) {} std::vector<column>& columns() { return c_; } std::vector<column> const& columns() const { return c_; }
private: std::vector<column> c_;
};
class scan : public base<scan, expression_kind::scan, 0, 1> {
public:
    using column = mapping2; class endpoint {};
    scan(descriptor::relation s, std::vector<column> c, endpoint, endpoint, std::optional<std::size_t> l) : s_(std::move(s)), c_(std::move(c)), l_(l) {}
    descriptor::relation const& source() const { return s_; } std::vector<column>& columns() { return c_; } std::vector<column> const& columns() const { return c_; }
private: descriptor::relation s_; std::vector<column> c_; std::optional<std::size_t> l_;
};
class values : public base<values, expression_kind::values, 0, 1> {
public:
    using column = descriptor::variable;
    class row { public: row(util::reference_vector<scalar::expression> e) : e_(std::move(e)) {} util::reference_vector<scalar::expression>& elements() { return e_; } util::reference_vector<scalar::expression> const& elements() const { return e_; } private: util::reference_vector<scalar::expression> e_; };
    values(std::vector<column> c, std::vector<row> r) : c_(std::move(c)), r_(std::move(r)) {}
    std::vector<column>& columns() { return c_; } std::vector<column> const& columns() const { return c_; } std::vector<row>& rows() { return r_; } std::vector<row> const& rows() const { return r_; }
private: std::vector<column> c_; std::vector<row> r_;
};
class write : public base<write, expression_kind::write, 1, 0> {
public:
    using column = mapping2; using key = mapping2;
    write(write_kind k, descriptor::relation d, std::vector<key> ks, std::vector<column> c) : k_(k), d_(std::move(d)), ks_(std::move(ks)), c_(std::move(c)) {}
    write_kind operator_kind() const { return k_; } descriptor::relation const& destination() const { return d_; } std::vector<key> const& keys() const { return ks_; } std::vector<column> const& columns() const { return c_; }
private: write_kind k_; descriptor::relation d_; std::vector<key> ks_; std::vector<column> c_;
};
class apply : public base<apply, expression_kind::apply, 1, 1> {
public:
    class column_type { public: column_type(std::size_t p, descriptor::variable v) : p_(p), v_(std::move(v)) {} std::size_t position() const { return p_; } descriptor::variable const& variable() const { return v_; } private: std::size_t p_; descriptor::variable v_; };
    using column = column_type;
    apply(apply_kind k, descriptor::function f, std::vector<uexpr> a, std::vector<column> c) : k_(k), f_(std::move(f)), a_(std::move(a)), c_(std::move(c)) {}
    apply(apply_kind k, descriptor::function f, util::reference_vector<scalar::expression> a, std::vector<column> c) : k_(k), f_(std::move(f)), a_(std::move(a)), c_(std::move(c)) {}
    apply_kind operator_kind() const { return k_; } descriptor::function const& function() const { return f_; } util::reference_vector<scalar::expression> const& arguments() const { return a_; } std::vector<column> const& columns() const { return c_; }
private: apply_kind k_; descriptor::function f_; util::reference_vector<scalar::expression> a_; std::vector<column> c_;
};
}
namespace takatori::relation::intermediate {
using relation::set_quantifier; using relation::join_kind; using relation::sort_direction;
class join : public base<join, expression_kind::intermediate_join, 2, 1> {
public: explicit join(join_kind k) : k_(k) {} join(join_kind k, uexpr c) : k_(k), c_(std::move(c)) {}
    join_kind operator_kind() const { return k_; } optional_ptr<scalar::expression> condition() { return optional_ptr<scalar::expression>(c_.raw()); } optional_ptr<scalar::expression const> condition() const { return optional_ptr<scalar::expression const>(c_.raw()); }
private: join_kind k_; slot c_;
};
class aggregate : public base<aggregate, expression_kind::intermediate_aggregate, 1, 1> {
public:
    class column { public: column(descriptor::aggregate_function f, std::vector<descriptor::variable> a, descriptor::variable d) : f_(std::move(f)), a_(std::move(a)), d_(std::move(d)) {} descriptor::aggregate_function const& function() const { return f_; } std::vector<descriptor::variable> const& arguments() const { return a_; } descriptor::variable const& destination() const { return d_; } private: descriptor::aggregate_function f_; std::vector<descriptor::variable> a_; descriptor::variable d_; };
    aggregate(std::vector<descriptor::variable> g, std::vector<column> c) : g_(std::move(g)), c_(std::move(c)) {}
    std::vector<descriptor::variable>& group_keys() { return g_; } std::vector<column>& columns() { return c_; } std::vector<descriptor::variable> const& group_keys() const { return g_; } std::vector<column> const& columns() const { return c_; }
private: std::vector<descriptor::variable> g_; std::vector<column> c_;
};
class distinct : public base<distinct, expression_kind::intermediate_distinct, 1, 1> {
public: explicit distinct(std::vector<descriptor::variable> g) : g_(std::move(g)) {} std::vector<descriptor::variable> const& group_keys() const { return g_; }
private: std::vector<descriptor::variable> g_;
};
class limit : public base<limit, expression_kind::intermediate_limit, 1, 1> {
public:
    class sort_key { public: sort_key(descriptor::variable v, sort_direction d) : v_(std::move(v)), d_(d) {} descriptor::variable const& variable() const { return v_; } sort_direction direction() const { return d_; } private: descriptor::variable v_; sort_direction d_; };
    limit(std::optional<std::size_t> c, std::vector<descriptor::variable> g, std::vector<sort_key> s) : n_(c), g_(std::move(g)), s_(std::move(s)) {}
    std::optional<std::size_t> count() const { return n_; } limit& count(std::optional<std::size_t> n) { n_ = n; return *this; } std::vector<descriptor::variable> const& group_keys() const { return g_; } std::vector<sort_key> const& sort_keys() const { return s_; }
private: std::optional<std::size_t> n_; std::vector<descriptor::variable> g_; std::vector<sort_key> s_;
};
class union_ : public base<union_, expression_kind::intermediate_union, 2, 1> {
public:
    class mapping { public: mapping(std::optional<descriptor::variable> l, std::optional<descriptor::variable> r, descriptor::variable d) : l_(std::move(l)), r_(std::move(r)), d_(std::move(d)) {} std::optional<descriptor::variable> const& left() const { return l_; } std::optional<descriptor::variable> const& right() const { return r_; } descriptor::variable const& destination() const { return d_; } private: std::optional<descriptor::variable> l_; std::optional<descriptor::variable> r_; descriptor::variable d_; };
    union_(set_quantifier q, std::vector<mapping> m) : q_(q), m_(std::move(m)) {} set_quantifier quantifier() const { return q_; } std::vector<mapping> const& mappings() const { return m_; }
private: set_quantifier q_; std::vector<mapping> m_;
};
class key_pair { public: key_pair(descriptor::variable l, descriptor::variable r) : l_(std::move(l)), r_(std::move(r)) {} descriptor::variable const& left() const { return l_; } descriptor::variable const& right() const { return r_; } private: descriptor::variable l_; descriptor::variable r_; };
template<class D, expression_kind K> class setop : public base<D, K, 2, 1> {
public: using key_pair_type = key_pair; using key = key_pair; using group_key_pair = intermediate::key_pair; using mapping = key_pair; using key_pair = intermediate::key_pair;
    setop(set_quantifier q, std::vector<intermediate::key_pair> m) : q_(q), m_(std::move(m)) {} set_quantifier quantifier() const { return q_; } std::vector<intermediate::key_pair> const& group_key_pairs() const { return m_; }
private: set_quantifier q_; std::vector<intermediate::key_pair> m_;
};
class intersection : public setop<intersection, expression_kind::intermediate_intersection> { public: using setop::setop; };
class difference : public setop<difference, expression_kind::intermediate_difference> { public: using setop::setop; };
class extension : public expression {
public: static constexpr expression_kind tag = expression_kind::intermediate_extension; expression_kind kind() const noexcept override { return tag; } virtual std::size_t extension_id() const noexcept = 0;
protected: using expression::expression; extension(int i, int o) : expression(i, o) {}
};
}

namespace takatori::statement {
using relation::write_kind;
enum class statement_kind { empty, execute, write, create_table, drop_table, create_index, drop_index, grant_table, revoke_table, truncate_table, rename_table, rename_index, rename_column, alter_table, extension };
inline std::ostream& operator<<(std::ostream& o, statement_kind k) { return o << static_cast<int>(k); }
class statement {
public:
    virtual ~statement() = default; virtual statement_kind kind() const noexcept = 0;
    ::takatori::document::region& region() noexcept { return r_; } ::takatori::document::region const& region() const noexcept { return r_; }
    friend std::ostream& operator<<(std::ostream& o, statement const& s) { return o << "statement(" << s.kind() << ")"; }
private: ::takatori::document::region r_ {};
};
template<class D, statement_kind K> class base : public statement { public: static constexpr statement_kind tag = K; statement_kind kind() const noexcept override { return K; } };
class empty : public base<empty, statement_kind::empty> {};
class write : public base<write, statement_kind::write> {
public:
    using column = descriptor::variable;
    class tuple { public: tuple(util::reference_vector<scalar::expression> e) : e_(std::move(e)) {} util::reference_vector<scalar::expression>& elements() { return e_; } util::reference_vector<scalar::expression> const& elements() const { return e_; } private: util::reference_vector<scalar::expression> e_; };
    write(write_kind k, descriptor::relation d, std::vector<column> c, std::vector<tuple> t) : k_(k), d_(std::move(d)), c_(std::move(c)), t_(std::move(t)) {}
    write_kind operator_kind() const { return k_; } descriptor::relation const& destination() const { return d_; } std::vector<column> const& columns() const { return c_; } std::vector<tuple> const& tuples() const { return t_; }
private: write_kind k_; descriptor::relation d_; std::vector<column> c_; std::vector<tuple> t_;
};
class create_table : public base<create_table, statement_kind::create_table> {
public: create_table(descriptor::schema s, descriptor::storage d, std::optional<descriptor::storage> p = {}) : s_(std::move(s)), d_(std::move(d)), p_(std::move(p)) {}
    create_table(descriptor::schema s, descriptor::storage d, descriptor::relation const& p) : s_(std::move(s)), d_(std::move(d)), p_(descriptor::storage { p.shared_entity() }) {}
    descriptor::schema const& schema() const { return s_; } descriptor::storage const& definition() const { return d_; } descriptor::storage const& primary_key() const { return *p_; }
private: descriptor::schema s_; descriptor::storage d_; std::optional<descriptor::storage> p_;
};
class create_index : public base<create_index, statement_kind::create_index> { public: create_index(descriptor::schema s, descriptor::storage d) : s_(std::move(s)), d_(std::move(d)) {} descriptor::schema const& schema() const { return s_; } descriptor::storage const& definition() const { return d_; } private: descriptor::schema s_; descriptor::storage d_; };
template<class D, statement_kind K> class drop_ : public base<D, K> { public: drop_(descriptor::schema s, descriptor::storage d) : s_(std::move(s)), d_(std::move(d)) {} descriptor::schema const& schema() const { return s_; } descriptor::storage const& target() const { return d_; } private: descriptor::schema s_; descriptor::storage d_; };
class drop_table : public drop_<drop_table, statement_kind::drop_table> { public: using drop_::drop_; };
class drop_index : public drop_<drop_index, statement_kind::drop_index> { public: using drop_::drop_; };
template<class D, statement_kind K> class rename_ : public base<D, K> { public: rename_(descriptor::schema s, descriptor::storage d, std::string n) : s_(std::move(s)), d_(std::move(d)), n_(std::move(n)) {} descriptor::schema const& schema() const { return s_; } descriptor::storage const& target() const { return d_; } std::string_view new_name() const { return n_; } private: descriptor::schema s_; descriptor::storage d_; std::string n_; };
class rename_table : public rename_<rename_table, statement_kind::rename_table> { public: using rename_::rename_; };
class rename_index : public rename_<rename_index, statement_kind::rename_index> { public: using rename_::rename_; };
class rename_column : public base<rename_column, statement_kind::rename_column> { public: rename_column(descriptor::storage t, descriptor::variable c, std::string n) : t_(std::move(t)), c_(std::move(c)), n_(std::move(n)) {} descriptor::storage const& table() const { return t_; } descriptor::storage const& target() const { return t_; } descriptor::variable const& column() const { return c_; } std::string_view new_name() const { return n_; } private: descriptor::storage t_; descriptor::variable c_; std::string n_; };
enum class truncate_table_option_kind { restart_identity };
inline std::ostream& operator<<(std::ostream& o, truncate_table_option_kind k) { return o << static_cast<int>(k); }
class truncate_table : public base<truncate_table, statement_kind::truncate_table> {
public: using option_set_type = util::enum_set<truncate_table_option_kind, truncate_table_option_kind::restart_identity, truncate_table_option_kind::restart_identity>;
    explicit truncate_table(descriptor::storage t, option_set_type o = {}) : t_(std::move(t)), o_(o) {} descriptor::storage const& target() const { return t_; } option_set_type const& options() const { return o_; }
private: descriptor::storage t_; option_set_type o_;
};
enum class authorization_user_kind { specified, current_user, all_users };
enum class table_action_kind { control, select, insert, update, delete_ };
inline std::ostream& operator<<(std::ostream& o, authorization_user_kind k) { return o << static_cast<int>(k); }
inline std::ostream& operator<<(std::ostream& o, table_action_kind k) { return o << static_cast<int>(k); }
namespace details {
class table_privilege_action { public: using action_kind_type = table_action_kind; table_privilege_action(table_action_kind k) : k_(k) {} table_action_kind action_kind() const { return k_; } private: table_action_kind k_; };
class table_authorization_entry { public: table_authorization_entry(authorization_user_kind k) : k_(k) {} table_authorization_entry(std::string n, std::vector<table_privilege_action> p = {}) : k_(authorization_user_kind::specified), n_(std::move(n)), p_(std::move(p)) {} table_authorization_entry(authorization_user_kind k, std::vector<table_privilege_action> p) : k_(k), p_(std::move(p)) {} table_authorization_entry(authorization_user_kind k, std::string n, std::vector<table_privilege_action> p) : k_(k), n_(std::move(n)), p_(std::move(p)) {} authorization_user_kind user_kind() const { return k_; } std::string_view authorization_identifier() const { return n_; } std::vector<table_privilege_action> const& privileges() const { return p_; } private: authorization_user_kind k_; std::string n_ {}; std::vector<table_privilege_action> p_ {}; };
class table_privilege_element { public: table_privilege_element(descriptor::storage t, std::vector<table_privilege_action> d, std::vector<table_authorization_entry> e) : t_(std::move(t)), d_(std::move(d)), e_(std::move(e)) {} descriptor::storage const& table() const { return t_; } std::vector<table_privilege_action> const& default_privileges() const { return d_; } std::vector<table_authorization_entry> const& authorization_entries() const { return e_; } private: descriptor::storage t_; std::vector<table_privilege_action> d_; std::vector<table_authorization_entry> e_; };
}
template<class D, statement_kind K> class priv_ : public base<D, K> { public: explicit priv_(std::vector<details::table_privilege_element> e) : e_(std::move(e)) {} std::vector<details::table_privilege_element> const& elements() const { return e_; } private: std::vector<details::table_privilege_element> e_; };
class grant_table : public priv_<grant_table, statement_kind::grant_table> { public: using priv_::priv_; };
class revoke_table : public priv_<revoke_table, statement_kind::revoke_table> { public: using priv_::priv_; };
}
