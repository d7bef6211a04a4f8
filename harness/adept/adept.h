// A small stand-in for the Adept automatic differentiation library, which the Walrasian market needs and which is not
// installed here: the part of its interface that ESL uses, with Adept's documented meaning (reverse mode over a recorded
// tape; Jacobians with the dependent variables varying fastest; pausable recordings).
#ifndef VMON_ADEPT_H
#define VMON_ADEPT_H
#include <cassert>
#include <cmath>
#include <cstddef>
#include <stdexcept>
#include <vector>
#define ADEPT_VERSION 20101
namespace adept {
class adouble;
class Stack {
    struct operation { double multiplier; size_t of; };
    struct statement { size_t result, first, last; };
    std::vector<statement> statements_;
    std::vector<operation> operations_;
    std::vector<double> gradient_;
    std::vector<size_t> free_, independent_, dependent_;
    size_t slots_ = 0;
    bool recording_ = true, seeded_ = false;
    Stack *previous_;
    friend class adouble;
    static Stack *&active() { static thread_local Stack *s = nullptr; return s; }
    size_t acquire() { if(free_.empty()) return slots_++; size_t s = free_.back(); free_.pop_back(); return s; }
    void release(size_t s) { free_.push_back(s); }
    void record(size_t result, std::initializer_list<operation> from)
    {
        if(!recording_) return;
        size_t first = operations_.size(); for(auto &o : from) operations_.push_back(o);
        statements_.push_back({result, first, operations_.size()});
    }
    std::vector<double> sweep(std::vector<double> g) const
    {
        for(size_t k = statements_.size(); k-- > 0;) {
            const statement &s = statements_[k]; double a = g[s.result]; g[s.result] = 0;
            if(a != 0) for(size_t o = s.first; o < s.last; ++o) g[operations_[o].of] += a * operations_[o].multiplier;
        }
        return g;
    }
public:
    Stack() : previous_(active()) { active() = this; }
    Stack(const Stack &) = delete;
    ~Stack() { if(active() == this) active() = previous_; }
    void new_recording() { statements_.clear(); operations_.clear(); independent_.clear(); dependent_.clear(); gradient_.clear(); seeded_ = false; }
    bool pause_recording() { recording_ = false; return true; }
    bool continue_recording() { recording_ = true; return true; }
    bool is_recording() const { return recording_; }
    inline void independent(const adouble *x, size_t n);
    inline void dependent(const adouble *y, size_t n);
    void compute_adjoint()
    {
        if(!seeded_) throw std::logic_error("gradients have not been set before the adjoint is computed");
        gradient_.resize(slots_, 0.); gradient_ = sweep(gradient_);
    }
    void jacobian(double *out)
    {
        if(independent_.empty() || dependent_.empty()) throw std::logic_error("independent or dependent variables have not been identified");
        for(size_t i = 0; i < dependent_.size(); ++i) {
            std::vector<double> g(slots_, 0.); g[dependent_[i]] = 1; g = sweep(g);
            for(size_t j = 0; j < independent_.size(); ++j) out[i + j * dependent_.size()] = g[independent_[j]];
        }
    }
};
class adouble {
    double value_;
    Stack *stack_;
    size_t slot_;
    friend class Stack;
    adouble(double v, std::initializer_list<std::pair<double, const adouble *>> from) : adouble(v, nullptr) { note(from); }
    adouble(double v, std::nullptr_t) : value_(v), stack_(Stack::active()), slot_(0) { if(!stack_) throw std::logic_error("no stack"); slot_ = stack_->acquire(); }
    void note(std::initializer_list<std::pair<double, const adouble *>> from)
    {
        if(from.size() == 0) stack_->record(slot_, {});
        else if(from.size() == 1) stack_->record(slot_, {{from.begin()->first, from.begin()->second->slot_}});
        else stack_->record(slot_, {{from.begin()->first, from.begin()->second->slot_}, {from.begin()[1].first, from.begin()[1].second->slot_}});
    }
public:
    adouble() : adouble(0., nullptr) {}
    adouble(double v) : adouble(v, nullptr) { note({}); }
    adouble(const adouble &x) : adouble(x.value_, nullptr) { note({{1., &x}}); }
    ~adouble() { stack_->release(slot_); }
    adouble &operator=(const adouble &x) { if(&x != this) { value_ = x.value_; note({{1., &x}}); } return *this; }
    adouble &operator=(double v) { value_ = v; note({}); return *this; }
    double value() const { return value_; }
    void set_gradient(double g) { stack_->gradient_.resize(stack_->slots_, 0.); stack_->gradient_[slot_] = g; stack_->seeded_ = true; }
    double get_gradient() const { return slot_ < stack_->gradient_.size() ? stack_->gradient_[slot_] : 0; }
    adouble operator-() const { return adouble(-value_, {{-1., this}}); }
    adouble operator+() const { return *this; }
    friend adouble operator+(const adouble &a, const adouble &b) { return adouble(a.value_ + b.value_, {{1., &a}, {1., &b}}); }
    friend adouble operator-(const adouble &a, const adouble &b) { return adouble(a.value_ - b.value_, {{1., &a}, {-1., &b}}); }
    friend adouble operator*(const adouble &a, const adouble &b) { return adouble(a.value_ * b.value_, {{b.value_, &a}, {a.value_, &b}}); }
    friend adouble operator/(const adouble &a, const adouble &b) { return adouble(a.value_ / b.value_, {{1 / b.value_, &a}, {-a.value_ / (b.value_ * b.value_), &b}}); }
    friend adouble operator+(const adouble &a, double b) { return adouble(a.value_ + b, {{1., &a}}); }
    friend adouble operator-(const adouble &a, double b) { return adouble(a.value_ - b, {{1., &a}}); }
    friend adouble operator*(const adouble &a, double b) { return adouble(a.value_ * b, {{b, &a}}); }
    friend adouble operator/(const adouble &a, double b) { return adouble(a.value_ / b, {{1 / b, &a}}); }
    friend adouble operator+(double a, const adouble &b) { return b + a; }
    friend adouble operator-(double a, const adouble &b) { return adouble(a - b.value_, {{-1., &b}}); }
    friend adouble operator*(double a, const adouble &b) { return b * a; }
    friend adouble operator/(double a, const adouble &b) { return adouble(a / b.value_, {{-a / (b.value_ * b.value_), &b}}); }
    adouble &operator+=(const adouble &b) { return *this = *this + b; }
    adouble &operator-=(const adouble &b) { return *this = *this - b; }
    adouble &operator*=(const adouble &b) { return *this = *this * b; }
    adouble &operator/=(const adouble &b) { return *this = *this / b; }
    adouble &operator+=(double b) { return *this = *this + b; }
    adouble &operator-=(double b) { return *this = *this - b; }
    adouble &operator*=(double b) { return *this = *this * b; }
    adouble &operator/=(double b) { return *this = *this / b; }
    friend adouble pow(const adouble &a, double n) { return adouble(std::pow(a.value_, n), {{n == 0 ? 0. : n * std::pow(a.value_, n - 1), &a}}); }
    friend adouble pow(const adouble &a, int n) { return pow(a, double(n)); }
    friend adouble pow(const adouble &a, const adouble &b) { double v = std::pow(a.value_, b.value_); return adouble(v, {{b.value_ * std::pow(a.value_, b.value_ - 1), &a}, {v * std::log(a.value_), &b}}); }
    friend adouble exp(const adouble &a) { double v = std::exp(a.value_); return adouble(v, {{v, &a}}); }
    friend adouble log(const adouble &a) { return adouble(std::log(a.value_), {{1 / a.value_, &a}}); }
    friend adouble sqrt(const adouble &a) { double v = std::sqrt(a.value_); return adouble(v, {{.5 / v, &a}}); }
    friend adouble tanh(const adouble &a) { double v = std::tanh(a.value_); return adouble(v, {{1 - v * v, &a}}); }
    friend adouble abs(const adouble &a) { return adouble(std::fabs(a.value_), {{a.value_ < 0 ? -1. : 1., &a}}); }
    friend adouble fabs(const adouble &a) { return abs(a); }
#define VMON_ADEPT_COMPARE(OP) friend bool operator OP(const adouble &a, const adouble &b) { return a.value_ OP b.value_; } friend bool operator OP(const adouble &a, double b) { return a.value_ OP b; } friend bool operator OP(double a, const adouble &b) { return a OP b.value_; }
    VMON_ADEPT_COMPARE(<) VMON_ADEPT_COMPARE(>) VMON_ADEPT_COMPARE(<=) VMON_ADEPT_COMPARE(>=) VMON_ADEPT_COMPARE(==) VMON_ADEPT_COMPARE(!=)
#undef VMON_ADEPT_COMPARE
};
inline void Stack::independent(const adouble *x, size_t n) { for(size_t i = 0; i < n; ++i) independent_.push_back(x[i].slot_); }
inline void Stack::dependent(const adouble *y, size_t n) { for(size_t i = 0; i < n; ++i) dependent_.push_back(y[i].slot_); }
inline double value(const adouble &x) { return x.value(); }
inline double value(double x) { return x; }
inline void get_gradients(const adouble *x, size_t n, double *out) { for(size_t i = 0; i < n; ++i) out[i] = x[i].get_gradient(); }
}
#endif
