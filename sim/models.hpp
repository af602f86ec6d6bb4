// Executable reference models, written from the documentation; T is double or a perturbed float.
#pragma once
#include "oracle.hpp"
#include <deque>

namespace sim {

template <class T> struct NumM {                         // numerical state
    T x0{0}, x1{0}, x2{0}; int im = 1, dm = 0;           // default: trapezoidal, two points
    void init(T a = T(0), T b = T(0), T c = T(0)) { x0 = a; x1 = b; x2 = c; }
    void push(T s) { x2 = x1; x1 = s; }
    T integrate(T s, T dt, bool upd = true) {
        switch (im) {
            case 0: x0 += s * dt; break;
            case 1: x0 += T(0.5) * (s + x1) * dt; break;
            case 2: x0 += (s + T(4.0) * x1 + x2) * dt / T(6.0); break;
            case 3: x0 += (T(5.0) * s + T(8.0) * x1 - x2) * dt / T(12.0); break;
        }
        if (upd) push(s);
        return x0;
    }
    T derive(T s, T dt, bool upd = true) {
        T d{0};
        switch (dm) {
            case 0: d = (s - x1) / dt; break;
            case 1: d = (T(3.0) * s - T(4.0) * x1 + x2) / (T(2.0) * dt); break;
            case 2: d = (T(4.0) * x1 - T(3.0) * x2 - s) / (T(2.0) * dt); break;
        }
        if (upd) push(s);
        return d;
    }
};

template <class T> struct PidM : Dec {
    bool on = false, man = false, back = false, mrac = false;
    T Kc{0}, Ki{0}, Kd{0}, dt{1.0}, b{1.0}, c{0}, lo{0}, hi{100.0}, eps{0}, kw{1.0}, kt{1.0}, beta{0}, D{0}, u1{0}, m{0}, mIn{0}, uS{0}, gamma{0}, alpha{0}, v{0};
    NumM<T> I, Dn, M, B;
    void setup(float kc, float ki, float kd, float h) {
        on = true; dt = T(h); beta = T(0.98f); eps = T(1.17549435e-38f); Kc = T(kc); Ki = T(ki); Kd = T(kd); lo = T(0); hi = T(100.0);
        man = false; mIn = T(0); kw = T(1.0); kt = T(1.0); back = false; b = T(1.0); c = T(0); reset();
    }
    void reset() { fl = 0; raw = NAN; I.init(); Dn.init(); M.init(); B.init(); D = T(0); u1 = T(0); m = T(0); uS = T(0); }
    void params(float kc, float ti, float td) { Kc = T(kc); Ki = T(kc) / T(ti); Kd = T(kc) * T(td); }
    void series() { T ti = Kc / Ki, td = Kd / Kc, f = T(1.0) + td / ti; Kc = Kc * f; Ki = Kc / (ti * f); Kd = Kc * (td / f); }
    void tf(float Tf) { beta = mexp(-dt / T(Tf)); }
    void setMrac(float g, float a) { M.init(); gamma = T(g); alpha = T(a); mrac = true; }
    T err(T w, T y, T k) {
        T e = k * w - y;
        dec(mabs(e), eps, mabs(e));
        return (mabs(e) <= eps) ? T(0) : e;
    }
    T mag() const { return mabs(v) + mabs(m) + mabs(D) + mabs(I.x0) + mabs(M.x0) + mabs(u1); }
    T control(float wf, float yf, float yrf) {
        T w(wf), y(yf), yr(yrf);
        if (!on) { raw = NAN; return w; }
        T kc = Kc, ki = Ki, kd = Kd;
        if (back) { if (kc > T(0)) kc = -kc; if (ki > T(0)) ki = -ki; if (kd > T(0)) kd = -kd; }
        T e = err(w, y, T(1.0)), de = Dn.derive(err(w, y, c), dt), ie = I.integrate(e + u1, dt);
        D = de + beta * (D - de);
        v = kc * err(w, y, b) + ki * ie + kd * D; lin = val(mabs(ki * ie)) + val(mabs(m));
        // rounding of the terms themselves, whatever their sum
        fl = std::max(fl * 0.98, 4e-7 * (val(mabs(kc)) * (val(mabs(b * w)) + val(mabs(y))) + val(mabs(ki)) * (val(mabs(ie)) + val(mabs(dt)) * (val(mabs(e)) + val(mabs(u1)))) + val(mabs(kd)) * (2 * val(mabs(de)) + (val(mabs(c * w)) + val(mabs(y))) / val(dt) + val(mabs(D)))));
        if (mrac) {
            T th{0};
            if (val(u1) != 0) dec(mabs(u1), eps, T(1e30));      // exactly zero unless the output was limited, and that decision is recorded below
            if (mabs(u1) <= eps) { T em = y - yr; th = M.integrate(-gamma * em * yr / (alpha + yr * yr), dt); }
            v += w * th; fl = std::max(fl, 4e-7 * val(mabs(w * th)));
        }
        if (mrac) { dec(v, hi, T(1e30)); dec(v, lo, T(1e30)); }
        T bt = kt * mIn + kw * (uS - m);
        m = B.integrate(bt, dt);
        raw = val(man ? m : v); rawHist = false; uS = msat(man ? m : v, lo, hi);
        u1 = kw * (uS - v);
        if (ki < T(0)) u1 = -u1;
        return uS;
    }
};

// ---------------------------------------------------------------- smoothers: first(x) starts at the first sample
template <class T> struct Lpf1M : Dec { T a{0.9f}, y{0}; bool init = true; T mag() const { return mabs(y); }
    void reset() { init = true; }
    T step(float xf) { T x(xf); if (init) { y = x; init = false; } y = x + a * (y - x); lin = val(mabs(y)); return y; } };
template <class T> struct Lpf2M : Dec { T k{0}, a1{0}, a2{0}, y1{0}, y2{0}, x1{0}, x2{0}; bool init = true; T mag() const { return mabs(y1) + mabs(x1); }
    void set(float af) { T a(af), aa = a * a, p1 = msqrt(T(2.0) * a), r = T(1.0) + p1 + aa; k = aa / r; a1 = T(2.0) * (aa - T(1.0)) / r; a2 = (T(1.0) - p1 + aa) / r; }
    void reset() { init = true; }
    T step(float xf) { T x(xf); if (init) { y1 = y2 = x1 = x2 = x; init = false; } T y = k * x + T(2.0) * k * x1 + k * x2 - a1 * y1 - a2 * y2; lin = 4 * val(mabs(y1)); x2 = x1; x1 = x; y2 = y1; y1 = y; return y; } };
template <class T> struct ExpwM : Dec { T l{0.8f}, m{0}, w{1.0}; bool init = true; T mag() const { return mabs(m); }
    void reset() { init = true; }
    T step(T x) { if (init) { m = x; w = T(1.0); init = false; } w = l * w + T(1.0); T iw = T(1.0) / w; m = m * (T(1.0) - iw) + iw * x; lin = val(mabs(m)); return m; } };
template <class T> struct KlmnM : Dec { double pe = 0, xe = 0; T q{1.0}, r{1.0}, p0{1.0}, p{1.0}, x{0}; bool init = true; T mag() const { return mabs(x); }
    void reset() { init = true; }
    T step(float zf) { T z(zf); if (init) { x = z; p = p0; init = false; pe = xe = 0; } p = p + q; T g = p / (r + p);
        { double G = val(g), P = val(p), R = val(r); xe = (1 - G) * xe + pe * R / ((R + P) * (R + P)) * std::fabs(val(z) - val(x)); fl = 2 * xe; pe = (1 - G) * (1 - G) * pe + 4e-7 * P; }      // the covariance update cancels
        x = x + g * (z - x); p = (T(1.0) - g) * p; lin = val(mabs(x)); return x; } };
template <class T> struct DesfM : Dec { T a{0.5}, b{0.5}, n{0}, lt{0}, bt{0}; double top = 0; bool init = true; T mag() const { return mabs(lt) + mabs(n * bt); }
    void reset() { init = true; top = 0; }
    T step(float xf) { T x(xf); if (init) { lt = x; bt = x; init = false; } T l1 = lt; lt = (T(1.0) - a) * l1 + a * x; bt = (T(1.0) - b) * bt + b * (lt - l1); lin = val(mabs(lt) + (n + T(1.0)) * mabs(bt)); top = std::max(top * 0.9, val(mabs(lt)) + std::fabs(xf)); fl = 5e-7 * val(n) * top; return lt + n * bt; } };
// moving window: ring of the last n samples, position 0 the most recent
template <class T> struct Ring { std::vector<T> w; size_t h = 0;
    void fill(size_t n, T x) { w.assign(n, x); h = 0; }
    T& at(size_t i) { return w[(h + i) % w.size()]; }
    T oldest() { return at(w.size() - 1); }
    void push(T x) { h = (h + w.size() - 1) % w.size(); w[h] = x; } };
template <class T> struct MeanM : Dec { Ring<T> r; size_t n = 1; bool running = false, init = true; T sum{0}, m{0}; T mag() const { return mabs(m); }
    void reset() { init = true; }
    T step(T x) {
        if (init) { r.fill(n, x); sum = T(double(n)) * x; init = false; }
        if (running && !std::is_same<T, double>::value) { sum += x - r.oldest(); r.push(x); }        // rounding of a running sum
        else { r.push(x); sum = T(0); double as = 0; for (size_t i = n; i-- > 0;) { sum += r.at(i); as += val(mabs(r.at(i))); } fl = 6e-8 * as; }      // the definition; additions in any order
        m = sum / T(double(n)); lin = running ? val(mabs(m)) + val(mabs(x)) / double(n) : 0; return m; } };
template <class T> struct GmwfM : Dec { Ring<T> r; std::vector<T> k; size_t n = 1; bool init = true; T y{0}; T mag() const { return mabs(y); }
    void set(float sg, float c, size_t n_) { n = n_; k.assign(n, T(0)); T s{0}; for (size_t i = 0; i < n; ++i) { T d = T(double(i)) - T(c); k[i] = mexp(-(d * d) / (T(2.0) * T(sg) * T(sg))); s += k[i]; } for (auto& q : k) q = q / s; }
    void reset() { init = true; }
    T step(float xf) { T x(xf); if (init) { r.fill(n, x); init = false; } r.push(x); y = T(0); double top = 0, as = 0; for (size_t i = n; i-- > 0;) { T t = k[i] * r.at(i); y += t; as += val(mabs(t)); top = std::max(top, val(mabs(r.at(i)))); } fl = 1e-6 * top + 6e-8 * double(n) * as; return y; } };
template <class T> struct AlnfM : Dec { double wacc = 0; Ring<T> r; std::vector<T> w, v; size_t n = 1; T al{0.1}, mu{0}; bool init = true; T y{0}, big{0}; T mag() const { return mabs(y) + big; }
    void reset() { init = true; }
    T step(float xf) { T x(xf); if (init) { r.fill(n, x); w.assign(n, T(1.0) / T(double(n))); v = w; wacc = 0; init = false; }
        r.push(x); y = T(0); for (size_t i = n; i-- > 0;) y += w[i] * r.at(i);
        big = T(0); for (size_t i = 0; i < n; ++i) { T old = w[i]; w[i] += al * (x - y) * r.at(i) + mu * (old - v[i]); v[i] = old; big += mabs(w[i]); } lin = 0; double e2 = 0, sw = 0, top = 0; for (size_t i = 0; i < n; ++i) { sw += val(mabs(w[i])); top = std::max(top, val(mabs(r.at(i)))); } wacc += 1.2e-7 * sw; fl = wacc * top; for (size_t i = 0; i < n; ++i) { lin += val(mabs(w[i] * r.at(i))); e2 += val(r.at(i) * r.at(i)); }
        if (!(val(al) * e2 < 1.5)) big = T(1e30f);                       // the adaptation step is unstable: rounding is amplified without bound
        return y; } };
template <class T> struct MorM : Dec { Ring<T> r; size_t n = 1; T al{0.5}, m{0}, sum{0}; bool running = false, init = true, outlier = false; T mag() const { return mabs(m); }
    void reset() { init = true; }
    T step(float xf) { T x(xf); if (init) { r.fill(n, x); sum = T(double(n)) * x; m = x; init = false; }
        T dv = mabs(m - x), th = al * mabs(m); dec(dv, th, dv); outlier = dv > th; T y = outlier ? m : x;
        if (running && !std::is_same<T, double>::value) { sum += y - r.oldest(); r.push(y); }
        else { r.push(y); sum = T(0); double as = 0; for (size_t i = n; i-- > 0;) { sum += r.at(i); as += val(mabs(r.at(i))); } ds = fl = 6e-8 * as; }
        m = sum / T(double(n)); lin = running ? val(mabs(m)) + val(mabs(x)) / double(n) : 0; return y; } };
template <class T> struct RmsM : Dec { ExpwM<T> e; MeanM<T> w; Lpf1M<T> l; T mag() const { return mabs(e.m); }
    void set(size_t n) { e.l = T(0.99f); w.n = n; w.running = true; l.a = T(0.75f); e.reset(); w.reset(); l.reset(); }
    T step(float xf) { T x(xf); T y = w.step(msqrt(e.step(x * x))); if (l.init) { l.y = y; l.init = false; } l.y = y + l.a * (l.y - y); lin = 2 * val(mabs(w.m)) + val(mabs(l.y)); return l.y; } };
// ---------------------------------------------------------------- LTI systems
template <class T> struct DiscM : Dec { std::vector<T> b, a, x; T lo{-3.4028234e38f}, hi{3.4028234e38f}, y{0}; T mag() const { T s = mabs(y); for (auto& q : x) s = s + mabs(q); return s; }
    void set(const std::vector<float>& num, const std::vector<float>& den) { b.clear(); a.clear(); for (float q : num) b.push_back(T(q) / T(den[0])); for (size_t i = 1; i < den.size(); ++i) a.push_back(T(den[i]) / T(den[0])); x.assign(std::max(a.size(), b.size()), T(0)); }
    T step(float uf) { T v(uf); double at = std::fabs(uf); for (size_t i = 0; i < a.size(); ++i) { v -= a[i] * x[i]; at += val(mabs(a[i] * x[i])); } at *= val(mabs(b[0])); y = T(0); for (size_t i = b.size() - 1; i >= 1; --i) { y += b[i] * x[i - 1]; at += val(mabs(b[i] * x[i - 1])); } y += b[0] * v; for (size_t i = x.size() - 1; i >= 1; --i) x[i] = x[i - 1]; x[0] = v; raw = val(y); fl = std::max(fl * 0.9, 3e-7 * at); return msat(y, lo, hi); } };
template <class T> struct ContM : Dec { std::vector<T> b, a; std::vector<NumM<T>> x; T dt{1.0}, b0{0}, lo{-3.4028234e38f}, hi{3.4028234e38f}, y{0}; T mag() const { T s = mabs(y); for (auto& q : x) s = s + mabs(q.x0); return s; }
    void set(const std::vector<float>& num, const std::vector<float>& den, float h) { size_t n = num.size() - 1; dt = T(h); b.clear(); a.clear(); b0 = T(num[0]) / T(den[0]); for (size_t i = 1; i <= n; ++i) { b.push_back(T(num[i]) / T(den[0])); a.push_back(T(den[i]) / T(den[0])); } }
    // controllable canonical form: x0' = u - sum a_i x_i, x_i' = x_{i-1}; y = sum (b_i - a_i b0) x_i + b0 u
    T step(float uf) { T u(uf), d = u; size_t n = x.size(); for (size_t i = 0; i < n; ++i) d -= a[i] * x[i].x0; for (size_t i = n - 1; i >= 1; --i) x[i].integrate(x[i - 1].x0, dt); x[0].integrate(d, dt);
        y = T(0); double at = val(mabs(b0 * u)); for (size_t i = n; i-- > 0;) { y += (b[i] - a[i] * b0) * x[i].x0; at += val((mabs(b[i]) + mabs(a[i] * b0)) * mabs(x[i].x0)); } y += b0 * u; raw = val(y); fl = std::max(fl * 0.9, 3e-7 * at); return msat(y, lo, hi); } };
} // namespace sim
