// The matrices and vectors, the decompositions, the reduction of lattices, and
// the Fourier transform, against naive models in extended or exact arithmetic.

#include <absl/synchronization/mutex.h>

#include <algorithm>
#include <array>
#include <cmath>
#include <complex>
#include <limits>
#include <optional>
#include <string>
#include <utility>
#include <vector>

#include "base/multiprecision.hpp"
#include "geometry/complexification.hpp"
#include "numerics/fast_fourier_transform.hpp"
#include "numerics/fixed_arrays.hpp"
#include "numerics/lattices.hpp"
#include "numerics/matrix_computations.hpp"
#include "numerics/matrix_views.hpp"
#include "numerics/transposed_view.hpp"
#include "numerics/unbounded_arrays.hpp"
#include "quantities/quantities.hpp"
#include "quantities/si.hpp"
#include "verif.hpp"

namespace verif {

using namespace principia::base::_multiprecision;
using namespace principia::base::_tags;
using namespace principia::geometry::_complexification;
using namespace principia::numerics::_fast_fourier_transform;
using namespace principia::numerics::_fixed_arrays;
using namespace principia::numerics::_lattices;
using namespace principia::numerics::_matrix_computations;
using namespace principia::numerics::_matrix_views;
using namespace principia::numerics::_transposed_view;
using namespace principia::numerics::_unbounded_arrays;
using namespace principia::quantities::_named_quantities;
using namespace principia::quantities::_quantities;
using namespace principia::quantities::_si;
using principia::π;

using LD = long double;
constexpr double ε = std::numeric_limits<double>::epsilon();

// The model: a matrix as a vector of rows.
template<typename T>
struct Dense {
  int m = 0;
  int n = 0;
  std::vector<T> a;
  Dense(int const m, int const n) : m(m), n(n), a(m * n) {}
  T& operator()(int const i, int const j) { return a[i * n + j]; }
  T const& operator()(int const i, int const j) const { return a[i * n + j]; }
};
using M = Dense<LD>;

template<typename T>
Dense<T> operator*(Dense<T> const& a, Dense<T> const& b) {
  HARNESS_CHECK(a.n == b.m);
  Dense<T> c(a.m, b.n);
  for (int i = 0; i < a.m; ++i) {
    for (int j = 0; j < b.n; ++j) {
      T s = 0;
      for (int k = 0; k < a.n; ++k) {
        s += a(i, k) * b(k, j);
      }
      c(i, j) = s;
    }
  }
  return c;
}

template<typename T>
Dense<T> Transpose(Dense<T> const& a) {
  Dense<T> b(a.n, a.m);
  for (int i = 0; i < a.m; ++i) {
    for (int j = 0; j < a.n; ++j) {
      b(j, i) = a(i, j);
    }
  }
  return b;
}

M Eye(int const n) {
  M e(n, n);
  for (int i = 0; i < n; ++i) {
    e(i, i) = 1;
  }
  return e;
}

LD Norm(M const& a) {
  LD s = 0;
  for (LD const x : a.a) {
    s += x * x;
  }
  return std::sqrt(s);
}

M operator-(M a, M const& b) {
  for (int k = 0; k < a.a.size(); ++k) {
    a.a[k] -= b.a[k];
  }
  return a;
}

// Gauss-Jordan with complete pivoting.  Nothing if the matrix is singular to
// working precision.
std::optional<M> Inverse(M a) {
  int const n = a.m;
  M b = Eye(n);
  std::vector<int> column(n);
  for (int j = 0; j < n; ++j) {
    column[j] = j;
  }
  LD const norm = Norm(a);
  for (int k = 0; k < n; ++k) {
    int p = k;
    int q = k;
    for (int i = k; i < n; ++i) {
      for (int j = k; j < n; ++j) {
        if (std::abs(a(i, j)) > std::abs(a(p, q))) {
          p = i;
          q = j;
        }
      }
    }
    if (!(std::abs(a(p, q)) > 1e-17L * norm)) {
      return std::nullopt;
    }
    for (int j = 0; j < n; ++j) {
      std::swap(a(k, j), a(p, j));
      std::swap(b(k, j), b(p, j));
    }
    for (int i = 0; i < n; ++i) {
      std::swap(a(i, k), a(i, q));
    }
    std::swap(column[k], column[q]);
    LD const pivot = a(k, k);
    for (int j = 0; j < n; ++j) {
      a(k, j) /= pivot;
      b(k, j) /= pivot;
    }
    for (int i = 0; i < n; ++i) {
      if (i != k) {
        LD const f = a(i, k);
        for (int j = 0; j < n; ++j) {
          a(i, j) -= f * a(k, j);
          b(i, j) -= f * b(k, j);
        }
      }
    }
  }
  M c(n, n);
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j < n; ++j) {
      c(column[i], j) = b(i, j);
    }
  }
  return c;
}

std::string Show(M const& a) {
  std::string s = std::to_string(a.m) + "x" + std::to_string(a.n) + "{";
  for (LD const x : a.a) {
    s += Str(static_cast<double>(x)) + ", ";
  }
  return s + "}";
}

M ToM(auto const& a) {
  M m(a.rows(), a.columns());
  for (int i = 0; i < m.m; ++i) {
    for (int j = 0; j < m.n; ++j) {
      m(i, j) = a(i, j);
    }
  }
  return m;
}

M UpperToM(auto const& a) {
  M m(a.columns(), a.columns());
  for (int j = 0; j < m.n; ++j) {
    for (int i = 0; i <= j; ++i) {
      m(i, j) = a(i, j);
    }
  }
  return m;
}

M LowerToM(auto const& a) {
  M m(a.rows(), a.rows());
  for (int i = 0; i < m.m; ++i) {
    for (int j = 0; j <= i; ++j) {
      m(i, j) = a(i, j);
    }
  }
  return m;
}

M VectorToM(auto const& v) {
  M m(v.size(), 1);
  for (int i = 0; i < m.m; ++i) {
    m(i, 0) = v[i];
  }
  return m;
}

void Round(M& a) {
  for (LD& x : a.a) {
    x = static_cast<double>(x);
  }
}

// The two families of types.
template<int n_>
struct Fixed {
  static constexpr char const* name = "fixed";
  using Matrix = FixedMatrix<double, n_, n_>;
  using Vector = FixedVector<double, n_>;
  using Upper = FixedUpperTriangularMatrix<double, n_>;
  using Lower = FixedLowerTriangularMatrix<double, n_>;
  static Matrix NewMatrix(int) { return Matrix(); }
  static Vector NewVector(int) { return Vector(); }
  static Upper NewUpper(int) { return Upper(); }
  static Lower NewLower(int) { return Lower(); }
};

struct Unbounded {
  static constexpr char const* name = "unbounded";
  using Matrix = UnboundedMatrix<double>;
  using Vector = UnboundedVector<double>;
  using Upper = UnboundedUpperTriangularMatrix<double>;
  using Lower = UnboundedLowerTriangularMatrix<double>;
  static Matrix NewMatrix(int const n) { return Matrix(n, n); }
  static Vector NewVector(int const n) { return Vector(n); }
  static Upper NewUpper(int const n) { return Upper(n); }
  static Lower NewLower(int const n) { return Lower(n); }
};

template<typename F>
typename F::Matrix MatrixFrom(M const& m) {
  auto a = F::NewMatrix(m.m);
  for (int i = 0; i < m.m; ++i) {
    for (int j = 0; j < m.n; ++j) {
      a(i, j) = m(i, j);
    }
  }
  return a;
}

template<typename F>
typename F::Vector VectorFrom(M const& m) {
  auto v = F::NewVector(m.m);
  for (int i = 0; i < m.m; ++i) {
    v[i] = m(i, 0);
  }
  return v;
}

template<typename F>
typename F::Upper UpperFrom(M const& m) {
  auto a = F::NewUpper(m.m);
  for (int j = 0; j < m.n; ++j) {
    for (int i = 0; i <= j; ++i) {
      a(i, j) = m(i, j);
    }
  }
  return a;
}

template<typename F>
typename F::Lower LowerFrom(M const& m) {
  auto a = F::NewLower(m.m);
  for (int i = 0; i < m.m; ++i) {
    for (int j = 0; j <= i; ++j) {
      a(i, j) = m(i, j);
    }
  }
  return a;
}

M RandomOrthogonal(Rng& r, int const n) {
  M q = Eye(n);
  for (int p = 0; p < n; ++p) {
    for (int s = p + 1; s < n; ++s) {
      LD const θ = Uniform(r, -4, 4);
      for (int i = 0; i < n; ++i) {
        LD const x = q(i, p);
        LD const y = q(i, s);
        q(i, p) = std::cos(θ) * x + std::sin(θ) * y;
        q(i, s) = -std::sin(θ) * x + std::cos(θ) * y;
      }
    }
  }
  return q;
}

M RandomMatrix(Rng& r, int const m, int const n) {
  M a(m, n);
  switch (Int(r, 0, 6)) {
    case 0:
      for (LD& x : a.a) {
        x = Int(r, -9, 9);
      }
      break;
    case 1:
      for (LD& x : a.a) {
        x = Uniform(r, -1, 1);
      }
      break;
    case 2:
      // Many zeroes.
      for (LD& x : a.a) {
        x = Chance(r, 0.5) ? 0 : Int(r, -3, 3);
      }
      break;
    case 3: {
      // A permutation, with noise above the diagonal.
      std::vector<int> p(m);
      for (int i = 0; i < m; ++i) {
        p[i] = i;
      }
      std::shuffle(p.begin(), p.end(), r);
      for (int i = 0; i < m; ++i) {
        a(i, p[i] % n) = Int(r, 1, 4) * (Chance(r, 0.5) ? 1 : -1);
        for (int j = p[i] + 1; j < n; ++j) {
          a(i, j) = Chance(r, 0.5) ? 0 : Uniform(r, -2, 2);
        }
      }
      break;
    }
    case 4:
      // Rows of various sizes.
      for (int i = 0; i < m; ++i) {
        LD const scale = std::ldexp(1.0L, Int(r, -12, 12));
        for (int j = 0; j < n; ++j) {
          a(i, j) = scale * Uniform(r, -1, 1);
        }
      }
      break;
    case 5:
      // Columns of various sizes.
      for (int j = 0; j < n; ++j) {
        LD const scale = std::ldexp(1.0L, Int(r, -12, 12));
        for (int i = 0; i < m; ++i) {
          a(i, j) = scale * Uniform(r, -1, 1);
        }
      }
      break;
    case 6: {
      // Nearly of a lower rank.
      int const rank = Int(r, 1, std::min(m, n));
      M b(m, rank);
      M c(rank, n);
      for (LD& x : b.a) {
        x = Uniform(r, -1, 1);
      }
      for (LD& x : c.a) {
        x = Uniform(r, -1, 1);
      }
      a = b * c;
      LD const noise = std::pow(10.0L, -Uniform(r, 1, 6));
      for (LD& x : a.a) {
        x += noise * Uniform(r, -1, 1);
      }
      break;
    }
  }
  Round(a);
  return a;
}

M RandomSymmetric(Rng& r, int const n) {
  M a = RandomMatrix(r, n, n);
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j < i; ++j) {
      a(i, j) = a(j, i);
    }
  }
  return a;
}

M RandomVector(Rng& r, int const n) {
  M v(n, 1);
  int const kind = Int(r, 0, 2);
  for (LD& x : v.a) {
    x = kind == 0 ? LD(Int(r, -9, 9)) :
        kind == 1 ? LD(Uniform(r, -1, 1)) : LD(LogUniform(r, -10, 10));
  }
  Round(v);
  return v;
}

void Close(M const& actual, M const& expected, LD const tolerance,
           std::string const& key, std::string const& what) {
  if (actual.m != expected.m || actual.n != expected.n) {
    Fail(key + ": dimensions", what);
    return;
  }
  LD const e = Norm(actual - expected);
  VERIF(e <= tolerance, key,
        what + " gives " + Show(actual) + " and not " + Show(expected));
  if (tolerance > 0 && e > 0) {
    Max(key, static_cast<double>(e / tolerance));
  }
}

template<typename F>
void Decompositions(Rng& r, int const n) {
  std::string const name = std::string(F::name) + " ";
  std::string const dimension = std::to_string(n);

  // Linear systems.
  {
    M const a = RandomMatrix(r, n, n);
    M const b = RandomVector(r, n);
    std::string const what = "solve " + name + Show(a) + Show(b);
    SetCase(what);
    auto const inverse = Inverse(a);
    if (inverse && Norm(*inverse) * Norm(a) < 1e12) {
      Case(what);
      M const x = VectorToM(Solve(MatrixFrom<F>(a), VectorFrom<F>(b)));
      LD const growth = std::ldexp(1.0L, n - 1);
      Close(a * x, b,
            10 * n * n * growth * ε * (Norm(a) * Norm(x) + 1e-300L),
            name + "solve", what);
      Count(name + "linear systems, " + dimension);
    } else {
      Count("singular matrices");
    }
    M u = a;
    M l = a;
    bool regular = true;
    for (int i = 0; i < n; ++i) {
      for (int j = 0; j < n; ++j) {
        if (i > j) {
          u(i, j) = 0;
        }
        if (i < j) {
          l(i, j) = 0;
        }
      }
      regular &= a(i, i) != 0;
    }
    if (regular) {
      for (bool const upper : {true, false}) {
        M const& t = upper ? u : l;
        M const x =
            upper ? VectorToM(
                        BackSubstitution(UpperFrom<F>(t), VectorFrom<F>(b)))
                  : VectorToM(
                        ForwardSubstitution(LowerFrom<F>(t), VectorFrom<F>(b)));
        M const tx = t * x;
        for (int i = 0; i < n; ++i) {
          LD bound = std::abs(b(i, 0));
          for (int j = 0; j < n; ++j) {
            bound += std::abs(t(i, j) * x(j, 0));
          }
          VERIF(std::abs(tx(i, 0) - b(i, 0)) <= (n + 2) * ε * bound + 1e-300L,
                name + (upper ? "back substitution" : "forward substitution"),
                what + " gives " + Show(x));
        }
        Count(name + "triangular systems, " + dimension);
      }
    }
  }

  // Symmetric decompositions.
  {
    M const b = RandomMatrix(r, n, n);
    M a = b * Transpose(b);
    LD const norm = Norm(a) + 1e-3L;
    LD const shift = norm * std::pow(10.0L, -Uniform(r, 0, 8));
    for (int i = 0; i < n; ++i) {
      a(i, i) += shift;
    }
    Round(a);
    std::string const what = "cholesky " + name + Show(a);
    SetCase(what);
    Case(what);
    M const c = UpperToM(CholeskyDecomposition(UpperFrom<F>(a)));
    Close(Transpose(c) * c, a, 4 * (n + 1) * (n + 1) * ε * Norm(a),
          name + "Cholesky", what);
    for (int i = 0; i < n; ++i) {
      VERIF(c(i, i) > 0, name + "Cholesky: diagonal", what);
    }
    // Opposite, too.
    LD const sign = Chance(r, 0.3) ? -1 : 1;
    M sa = a;
    for (LD& x : sa.a) {
      x *= sign;
    }
    auto const rdr = ᵗRDRDecomposition<typename F::Vector>(UpperFrom<F>(sa));
    M const rr = UpperToM(rdr.R);
    M d(n, n);
    for (int i = 0; i < n; ++i) {
      d(i, i) = rdr.D[i];
      VERIF(rr(i, i) == 1, name + "RDR: diagonal", what);
      VERIF(d(i, i) * sign > 0, name + "RDR: sign", what);
    }
    Close(Transpose(rr) * d * rr, sa, 4 * (n + 1) * (n + 1) * ε * Norm(a),
          name + "RDR", what);
    Count(name + "definite matrices, " + dimension);
  }

  // Orthogonalization.
  {
    M const a = RandomMatrix(r, n, n);
    std::string const what = "Gram-Schmidt " + name + Show(a);
    SetCase(what);
    auto const inverse = Inverse(a);
    LD const κ = inverse ? Norm(*inverse) * Norm(a) : 1e30L;
    if (κ < 1e6L) {
      Case(what);
      auto const qr = ClassicalGramSchmidt(MatrixFrom<F>(a));
      M const q = ToM(qr.Q);
      M const t = UpperToM(qr.R);
      Close(q * t, a, 8 * n * n * ε * Norm(a), name + "QR", what);
      Close(Transpose(q) * q, Eye(n), 20 * n * n * ε * κ * κ,
            name + "QR: orthogonality", what);
      for (int i = 0; i < n; ++i) {
        VERIF(t(i, i) > 0, name + "QR: diagonal", what);
      }
      auto const uqr = UnitriangularGramSchmidt(MatrixFrom<F>(a));
      M uq = ToM(uqr.Q);
      M const ut = UpperToM(uqr.R);
      Close(uq * ut, a, 8 * n * n * ε * κ * Norm(a), name + "unitriangular QR",
            what);
      for (int j = 0; j < n; ++j) {
        VERIF(ut(j, j) == 1, name + "unitriangular QR: diagonal", what);
        LD norm = 0;
        for (int i = 0; i < n; ++i) {
          norm += uq(i, j) * uq(i, j);
        }
        for (int i = 0; i < n; ++i) {
          uq(i, j) /= std::sqrt(norm);
        }
      }
      Close(Transpose(uq) * uq, Eye(n), 20 * n * n * ε * κ * κ,
            name + "unitriangular QR: orthogonality", what);
      Count(name + "orthogonalizations, " + dimension);
    }
  }

  // Similarity.
  {
    M a = RandomMatrix(r, n, n);
    // Sometimes, a known spectrum.
    std::vector<LD> spectrum;
    bool known = false;
    LD condition = 1;
    int pairs = 0;
    if (Chance(r, 0.6)) {
      M const p = [&] {
        for (;;) {
          M const p = Chance(r, 0.5) ? RandomOrthogonal(r, n)
                                     : RandomMatrix(r, n, n);
          auto const inverse = Inverse(p);
          if (inverse && Norm(p) * Norm(*inverse) < 1e3L) {
            condition = Norm(p) * Norm(*inverse);
            return p;
          }
        }
      }();
      M d(n, n);
      LD λ = Int(r, -8, 0);
      for (int i = 0; i < n; ++i) {
        λ += Int(r, 1, 4);
        if (i + 1 < n && Chance(r, 0.3)) {
          LD const ω = Int(r, 1, 5);
          d(i, i) = d(i + 1, i + 1) = λ;
          d(i, i + 1) = ω;
          d(i + 1, i) = -ω;
          ++i;
          ++pairs;
        } else {
          d(i, i) = λ;
          spectrum.push_back(λ);
        }
      }
      known = true;
      a = p * d * *Inverse(p);
      Round(a);
    }
    std::string const what = "similar " + name + Show(a);
    SetCase(what);
    Case(what);
    Watchdog watchdog(name + "decomposition does not terminate", 60);
    M const h = ToM(HessenbergDecomposition(MatrixFrom<F>(a)).H);
    LD const norm = Norm(a);
    double const threshold = std::pow(10.0, -Uniform(r, 7, 14));
    auto const schur = RealSchurDecomposition(MatrixFrom<F>(a), threshold);
    M const t = ToM(schur.T);
    for (auto const* s : {&h, &t}) {
      bool const is_schur = s == &t;
      std::string const key = name + (is_schur ? "Schur" : "Hessenberg");
      LD const tolerance =
          is_schur ? 2000 * n * ε + 4 * n * threshold : 100 * n * ε;
      for (int i = 0; i < n; ++i) {
        for (int j = 0; j + 1 < i; ++j) {
          VERIF(std::abs((*s)(i, j)) <= tolerance * norm, key + ": shape",
                what + " gives " + Show(*s));
        }
      }
      VERIF(std::abs(Norm(*s) - norm) <= tolerance * norm, key + ": norm",
            what + " gives " + Show(*s));
      M aᵏ = Eye(n);
      M sᵏ = Eye(n);
      for (int k = 1; k <= n; ++k) {
        aᵏ = aᵏ * a;
        sᵏ = sᵏ * *s;
        LD trace = 0;
        for (int i = 0; i < n; ++i) {
          trace += sᵏ(i, i) - aᵏ(i, i);
        }
        VERIF(std::abs(trace) <= k * n * tolerance * std::pow(norm, LD(k)),
              key + ": invariants", what + " gives " + Show(*s));
      }
    }
    for (int i = 2; i < n; ++i) {
      VERIF(t(i, i - 1) == 0 || t(i - 1, i - 2) == 0,
            name + "Schur: not quasi-triangular", what + " gives " + Show(t));
    }
    if (known) {
      std::string list;
      for (double const λ : schur.real_eigenvalues) {
        list += Str(λ) + " ";
      }
      bool good = schur.real_eigenvalues.size() == spectrum.size();
      int k = 0;
      for (double const λ : schur.real_eigenvalues) {
        if (good) {
          good &= std::abs(λ - spectrum[k]) <=
                  condition * n * (1e-12L + 10 * threshold) *
                      (1 + norm);
        }
        ++k;
      }
      VERIF(good, name + "Schur: real eigenvalues", what + " gives " + list);
      Count(name + "known spectra with " + std::to_string(pairs) +
            " complex pairs");
    }
    Count(name + "similarities, " + dimension);
  }

  // Symmetric eigenproblems.
  {
    M a = RandomSymmetric(r, n);
    if (Chance(r, 0.3)) {
      // Repeated or close eigenvalues.
      M const q = RandomOrthogonal(r, n);
      M d(n, n);
      for (int i = 0; i < n; ++i) {
        d(i, i) = Int(r, -2, 2) + (Chance(r, 0.5) ? 0 : Uniform(r, 0, 1e-7));
      }
      a = q * d * Transpose(q);
      for (int i = 0; i < n; ++i) {
        for (int j = 0; j < i; ++j) {
          a(i, j) = a(j, i);
        }
      }
      Round(a);
    }
    std::string const what = "symmetric " + name + Show(a);
    SetCase(what);
    Case(what);
    auto const jacobi = ClassicalJacobi(MatrixFrom<F>(a), 300);
    M const v = ToM(jacobi.rotation);
    M λ(n, n);
    for (int i = 0; i < n; ++i) {
      λ(i, i) = jacobi.eigenvalues[i];
    }
    Close(Transpose(v) * v, Eye(n), 200 * n * ε, name + "Jacobi: orthogonality",
          what);
    Close(a * v, v * λ, 400 * n * ε * Norm(a), name + "Jacobi", what);
    Count(name + "symmetric matrices, " + dimension);

    M const x = RandomVector(r, n);
    if (Norm(x) > 0) {
      LD const xᵗx = (Transpose(x) * x)(0, 0);
      LD const expected = (Transpose(x) * a * x)(0, 0) / xᵗx;
      double const actual =
          RayleighQuotient(MatrixFrom<F>(a), VectorFrom<F>(x));
      VERIF(std::abs(actual - expected) <= 6 * n * ε * Norm(a) + 1e-300L,
            name + "Rayleigh quotient",
            what + Show(x) + " gives " + Str(actual));
    }
  }
}

template<typename F>
void CheckRayleigh(std::string const& name, M const& a, M const& x,
                   LD const λ) {
  int const n = a.m;
  std::string const what = "Rayleigh " + name + Show(a) + Show(x);
  SetCase(what);
  Case(what);
  auto const result =
      RayleighQuotientIteration(MatrixFrom<F>(a), VectorFrom<F>(x));
  M const v = VectorToM(result.eigenvector);
  M λv = v;
  for (LD& y : λv.a) {
    y *= result.eigenvalue;
  }
  Close(a * v, λv, 100 * n * ε * (1 + Norm(a)), name + "Rayleigh iteration",
        what);
  VERIF(std::abs(Norm(v) - 1) <= 10 * n * ε,
        name + "Rayleigh iteration: unnormalized", what);
  VERIF(std::abs(result.eigenvalue - λ) <= 1e-12L,
        name + "Rayleigh iteration: another eigenvalue",
        what + " gives " + Str(result.eigenvalue) + " and not " +
            Str(static_cast<double>(λ)));
  Count(name + "Rayleigh iterations, " + std::to_string(n));
}

// A well-conditioned symmetric matrix and an approximation of one of its
// eigenvectors.
template<typename F>
void Rayleigh(Rng& r, int const n) {
  std::string const name = std::string(F::name) + " ";
  M const q = RandomOrthogonal(r, n);
  M d(n, n);
  LD λ = Uniform(r, -2, 0);
  for (int i = 0; i < n; ++i) {
    d(i, i) = λ;
    λ += Uniform(r, 0.2, 1);
  }
  M a = q * d * Transpose(q);
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j < i; ++j) {
      a(i, j) = a(j, i);
    }
  }
  Round(a);
  int const k = Int(r, 0, n - 1);
  if (Chance(r, 0.2)) {
    // Everything is exact, with a repeated eigenvalue.
    M const identity = Eye(n);
    a = identity;
    d = identity;
    int const j = (k + 1) % n;
    a(j, j) = d(j, j) = 2;
    M x(n, 1);
    for (int i = 0; i < n; ++i) {
      x(i, 0) = i == j ? 1e-3L : 1;
    }
    CheckRayleigh<F>(name, a, x, d(k, k));
    return;
  }
  M x(n, 1);
  LD const noise = Chance(r, 0.3) ? 1e-12L : 0.02L;
  for (int i = 0; i < n; ++i) {
    x(i, 0) = q(i, k) + noise * Uniform(r, -1, 1) / n;
  }
  Round(x);
  CheckRayleigh<F>(name, a, x, d(k, k));
}

template<int n>
void DecompositionsOfSize(Rng& r) {
  Decompositions<Fixed<n>>(r, n);
  if constexpr (n > 1) {
    Rayleigh<Fixed<n>>(r, n);
  }
}

void Matrices() {
  Rng r = MakeRng("matrices");
  for (int i = 0; i < N(900); ++i) {
    switch (Int(r, 1, 6)) {
      case 1:
        DecompositionsOfSize<1>(r);
        break;
      case 2:
        DecompositionsOfSize<2>(r);
        break;
      case 3:
        DecompositionsOfSize<3>(r);
        break;
      case 4:
        DecompositionsOfSize<4>(r);
        break;
      case 5:
        DecompositionsOfSize<5>(r);
        break;
      case 6:
        DecompositionsOfSize<7>(r);
        break;
    }
    int const n = Int(r, 1, 9);
    Decompositions<Unbounded>(r, n);
    if (n > 1) {
      Rayleigh<Unbounded>(r, n);
    }
  }
}

// The containers, the operators and the views.  The elements are integers, so
// that everything is exact.
M Integers(Rng& r, int const m, int const n) {
  M a(m, n);
  for (LD& x : a.a) {
    x = Int(r, -99, 99);
  }
  return a;
}

void Exactly(M const& actual, M const& expected, std::string const& key) {
  Close(actual, expected, 0, key, key);
}

M Times(LD const s, M a) {
  for (LD& x : a.a) {
    x *= s;
  }
  return a;
}

M Plus(M const& a, M const& b) { return a - Times(-1, b); }

template<typename Matrix, typename V, typename W>
void Operators(std::string const& name, Matrix const& a, Matrix const& b,
               V const& v, V const& v2, W const& w, double const s) {
  // V has the size of the columns, W that of the rows.
  M const ma = ToM(a);
  M const mb = ToM(b);
  M const mv = VectorToM(v);
  M const mv2 = VectorToM(v2);
  M const mw = VectorToM(w);
  Exactly(ToM(+a), ma, name + "+a");
  Exactly(ToM(-a), Times(-1, ma), name + "-a");
  Exactly(ToM(a + b), Plus(ma, mb), name + "a + b");
  Exactly(ToM(a - b), ma - mb, name + "a - b");
  Exactly(ToM(s * a), Times(s, ma), name + "s a");
  Exactly(ToM(a * s), Times(s, ma), name + "a s");
  Exactly(ToM(a / 4.0), Times(0.25, ma), name + "a / s");
  {
    auto c = a;
    c += b;
    Exactly(ToM(c), Plus(ma, mb), name + "+=");
    c -= a;
    Exactly(ToM(c), mb, name + "-=");
    c *= s;
    Exactly(ToM(c), Times(s, mb), name + "*=");
    c /= 2;
    Exactly(ToM(c), Times(s / 2, mb), name + "/=");
    c = a;
    c += c;
    Exactly(ToM(c), Times(2, ma), name + "+= itself");
    VERIF((c == a) == (Norm(ma) == 0), name + "==", name);
    c = a;
    VERIF(c == a && !(c != a), name + "==", name);
    c(a.rows() - 1, a.columns() - 1) += 1;
    VERIF(!(c == a) && c != a, name + "!=", name);
  }
  Exactly(VectorToM(+v), mv, name + "+v");
  Exactly(VectorToM(-v), Times(-1, mv), name + "-v");
  Exactly(VectorToM(v + v2), Plus(mv, mv2), name + "v + w");
  Exactly(VectorToM(v - v2), mv - mv2, name + "v - w");
  Exactly(VectorToM(s * v), Times(s, mv), name + "s v");
  Exactly(VectorToM(v * s), Times(s, mv), name + "v s");
  Exactly(VectorToM(v / 4.0), Times(0.25, mv), name + "v / s");
  {
    auto u = v;
    u += v2;
    Exactly(VectorToM(u), Plus(mv, mv2), name + "v +=");
    u -= v;
    Exactly(VectorToM(u), mv2, name + "v -=");
    u *= s;
    Exactly(VectorToM(u), Times(s, mv2), name + "v *=");
    u /= 2;
    Exactly(VectorToM(u), Times(s / 2, mv2), name + "v /=");
    u = v;
    VERIF(u == v && !(u != v), name + "v ==", name);
    u[v.size() - 1] += 1;
    VERIF(!(u == v) && u != v, name + "v !=", name);
    // The iterators of `UnboundedVector` only compile with libc++.
    if constexpr (requires { V::dimension; }) {
      int k = 0;
      for (double const x : v) {
        VERIF(x == mv(k, 0), name + "iteration", name);
        ++k;
      }
      VERIF(k == v.size(), name + "iteration", name);
    }
  }
  Exactly(VectorToM(a * v), ma * mv, name + "a v");
  Exactly(VectorToM(TransposedView{a} * w), Transpose(ma) * mw,  // NOLINT
          name + "transposed a v");
  Exactly(ToM(w * TransposedView{v}), mw * Transpose(mv),  // NOLINT
          name + "v transposed w");
  LD const vv2 = (Transpose(mv) * mv2)(0, 0);
  VERIF((TransposedView{v} * v2) == vv2, name + "transposed v w", name);
  VERIF(InnerProduct(v, v2) == vv2, name + "inner product", name);
  LD const vv = (Transpose(mv) * mv)(0, 0);
  VERIF(v.Norm²() == vv, name + "squared norm", name);
  VERIF(std::abs(v.Norm() - std::sqrt(vv)) <= ε * std::sqrt(vv), name + "norm",
        name);
  if (vv > 0) {
    Close(VectorToM(v.Normalize()), Times(1 / std::sqrt(vv), mv), 4 * ε,
          name + "normalize", name);
    Close(VectorToM(Normalize(v)), Times(1 / std::sqrt(vv), mv), 4 * ε,
          name + "normalize", name);
  }
  Exactly(ToM(SymmetricSquare(v)), mv * Transpose(mv),
          name + "symmetric square");
  Exactly(ToM(SymmetricProduct(v, v2)),
          Times(0.5, Plus(mv * Transpose(mv2), mv2 * Transpose(mv))),
          name + "symmetric product");
  LD const norm = Norm(ma);
  VERIF(std::abs(a.FrobeniusNorm() - norm) <= 2 * ε * norm,
        name + "Frobenius norm", name);
}

// Operations on a block of a matrix or a part of a column.
template<typename Matrix>
void Views(Rng& r, std::string const& name, Matrix a) {
  M m = ToM(a);
  int const i1 = Int(r, 0, m.m - 1);
  int const i2 = Int(r, i1, m.m - 1);
  int const j1 = Int(r, 0, m.n - 1);
  int const j2 = Int(r, j1, m.n - 1);
  auto block = BlockView<Matrix>{.matrix = a,
                                 .first_row = i1,
                                 .last_row = i2,
                                 .first_column = j1,
                                 .last_column = j2};
  Matrix const other = [&] {
    Matrix b = a;
    for (int i = 0; i < m.m; ++i) {
      for (int j = 0; j < m.n; ++j) {
        b(i, j) = Int(r, -50, 50);
      }
    }
    return b;
  }();
  auto const other_block = BlockView<Matrix const>{.matrix = other,
                                                   .first_row = i1,
                                                   .last_row = i2,
                                                   .first_column = j1,
                                                   .last_column = j2};
  VERIF(block.rows() == i2 - i1 + 1 && block.columns() == j2 - j1 + 1,
        name + "block dimensions", name);
  auto const each = [&](auto const& f) {
    for (int i = i1; i <= i2; ++i) {
      for (int j = j1; j <= j2; ++j) {
        f(m(i, j), LD(other(i, j)));
      }
    }
  };
  for (int step = 0; step < 4; ++step) {
    switch (Int(r, 0, 5)) {
      case 0:
        block += other_block;
        each([](LD& x, LD const y) { x += y; });
        break;
      case 1:
        block -= other_block;
        each([](LD& x, LD const y) { x -= y; });
        break;
      case 2:
        block *= 3;
        each([](LD& x, LD const y) { x *= 3; });
        break;
      case 3:
        block /= 2;
        each([](LD& x, LD const y) { x /= 2; });
        break;
      case 4:
        block = other_block;
        each([](LD& x, LD const y) { x = y; });
        VERIF(block == other_block, name + "block ==", name);
        break;
      case 5:
        block(i2 - i1, j2 - j1) = 17;
        m(i2, j2) = 17;
        VERIF(!(block == other_block) || other(i2, j2) == 17,
              name + "block !=", name);
        break;
    }
    Exactly(ToM(a), m, name + "block operations");
  }
  Exactly(ToM(block), [&] {
    M b(i2 - i1 + 1, j2 - j1 + 1);
    for (int i = 0; i < b.m; ++i) {
      for (int j = 0; j < b.n; ++j) {
        b(i, j) = m(i + i1, j + j1);
      }
    }
    return b;
  }(), name + "block");
  auto const view = TransposedView{a};  // NOLINT
  VERIF(view.rows() == m.n && view.columns() == m.m && view(j1, i2) == m(i2, j1),
        name + "transposed view", name);

  int const c1 = Int(r, 0, m.n - 1);
  int const c2 = Int(r, 0, m.n - 1);
  auto column1 = ColumnView<Matrix>{
      .matrix = a, .first_row = i1, .last_row = i2, .column = c1};
  auto column2 = ColumnView<Matrix>{
      .matrix = a, .first_row = i1, .last_row = i2, .column = c2};
  auto const other_column = ColumnView<Matrix const>{
      .matrix = other, .first_row = i1, .last_row = i2, .column = c1};
  VERIF(column1.size() == i2 - i1 + 1, name + "column size", name);
  auto const every = [&](auto const& f) {
    for (int i = i1; i <= i2; ++i) {
      f(m(i, c1), m(i, c2), LD(other(i, c1)));
    }
  };
  for (int step = 0; step < 5; ++step) {
    switch (Int(r, 0, 6)) {
      case 0:
        column1 += other_column;
        every([](LD& x, LD& y, LD const z) { x += z; });
        break;
      case 1:
        column1 -= other_column;
        every([](LD& x, LD& y, LD const z) { x -= z; });
        break;
      case 2:
        column1 *= 3;
        every([](LD& x, LD& y, LD const z) { x *= 3; });
        break;
      case 3:
        column1 /= 2;
        every([](LD& x, LD& y, LD const z) { x /= 2; });
        break;
      case 4:
        column1 = column2;
        every([](LD& x, LD& y, LD const z) { x = y; });
        break;
      case 5:
        SwapColumns(column1, column2);
        every([](LD& x, LD& y, LD const z) { std::swap(x, y); });
        break;
      case 6:
        column1 = other_column;
        every([](LD& x, LD& y, LD const z) { x = z; });
        VERIF(column1 == other_column, name + "column ==", name);
        break;
    }
    Exactly(ToM(a), m, name + "column operations");
  }
  LD product = 0;
  LD norm² = 0;
  for (int i = i1; i <= i2; ++i) {
    product += m(i, c1) * m(i, c2);
    norm² += m(i, c1) * m(i, c1);
  }
  LD const pertinent = 8 * ε * (1 + norm²);
  VERIF(std::abs((TransposedView{column1} * column2) - product) <=  // NOLINT
            1e-9L * (1 + std::abs(product)),
        name + "product of columns", name);
  VERIF(std::abs(column1.Norm²() - norm²) <= pertinent,
        name + "squared norm of column", name);
  VERIF(std::abs(column1.Norm() - std::sqrt(norm²)) <=
            8 * ε * (1 + std::sqrt(norm²)),
        name + "norm of column", name);
  Count("views");
}

template<int m, int n, bool heap>
void FixedContainers(Rng& r) {
  std::string const name = heap ? "heap " : "fixed ";
  using Matrix = FixedMatrix<double, m, n, heap>;
  using V = FixedVector<double, n, heap>;
  using W = FixedVector<double, m, heap>;
  auto const matrix = [&](M const& x) {
    std::array<double, m * n> data;
    std::copy(x.a.begin(), x.a.end(), data.begin());
    return Matrix(data);
  };
  M const ma = Integers(r, m, n);
  M const mb = Integers(r, m, n);
  Matrix const a = matrix(ma);
  Matrix const b = matrix(mb);
  Exactly(ToM(a), ma, name + "construction");
  Exactly(ToM(Matrix()), M(m, n), name + "zero");
  auto const vector = [&]<int s>() {
    std::array<double, s> data;
    for (double& x : data) {
      x = Int(r, -99, 99);
    }
    FixedVector<double, s, heap> const v(data);
    for (int i = 0; i < s; ++i) {
      VERIF(v[i] == data[i], name + "vector construction", name);
    }
    return v;
  };
  V const v = vector.template operator()<n>();
  V const v2 = vector.template operator()<n>();
  W const w = vector.template operator()<m>();
  Case(name + Show(ma) + Show(VectorToM(v)));
  Operators(name, a, b, v, v2, w, Int(r, -9, 9));
  for (int i = 0; i < m; ++i) {
    LD expected = 0;
    for (int j = 0; j < n; ++j) {
      expected += ma(i, j) * v[j];
    }
    VERIF(a.row(i) * v == expected, name + "row times vector", name);
  }
  // Moves and copies.
  {
    Matrix c = a;
    Matrix d = std::move(c);
    Exactly(ToM(d), ma, name + "move");
    c = std::move(d);
    Exactly(ToM(c), ma, name + "move");
    d = c;
    c(0, 0) += 1;
    Exactly(ToM(d), ma, name + "copy");
    V u = v;
    V t = std::move(u);
    u = t;
    t[0] += 1;
    Exactly(VectorToM(u), VectorToM(v), name + "vector copy");
  }
  // Products with another shape.
  {
    FixedMatrix<double, n, 3, heap> c;
    M const mc = Integers(r, n, 3);
    for (int i = 0; i < n; ++i) {
      for (int j = 0; j < 3; ++j) {
        c(i, j) = mc(i, j);
      }
    }
    Exactly(ToM(a * c), ma * mc, name + "product");
  }
  Exactly(ToM(FixedMatrix<double, n, m, heap>(TransposedView{a})),
          Transpose(ma), name + "transpose");
  if constexpr (!heap) {
    for (int i = 0; i < 2; ++i) {
      Views(r, name, a);
    }
    int const c = Int(r, 0, n - 1);
    auto const column = ColumnView<Matrix const>{
        .matrix = a, .first_row = 0, .last_row = m - 1, .column = c};
    FixedVector<double, m> const copy(column);
    for (int i = 0; i < m; ++i) {
      VERIF(copy[i] == ma(i, c), name + "copy of column", name);
    }
  }
  if constexpr (m == n) {
    M md = ma;
    Matrix d = a;
    d *= b;
    Exactly(ToM(d), ma * mb, name + "*= matrix");
    Exactly(ToM(Matrix::Identity()), Eye(n), name + "identity");
    VERIF(a(v, v2) == (Transpose(VectorToM(v)) * ma * VectorToM(v2))(0, 0),
          name + "bilinear form", name);
    // Triangles.
    FixedLowerTriangularMatrix<double, n, heap> lower;
    FixedUpperTriangularMatrix<double, n, heap> upper;
    FixedStrictlyLowerTriangularMatrix<double, n, heap> strictly_lower;
    FixedStrictlyUpperTriangularMatrix<double, n, heap> strictly_upper;
    M ml(n, n);
    M mu(n, n);
    M msl(n, n);
    M msu(n, n);
    for (int i = 0; i < n; ++i) {
      for (int j = 0; j < n; ++j) {
        if (j <= i) {
          lower(i, j) = ml(i, j) = ma(i, j);
        }
        if (j < i) {
          strictly_lower(i, j) = msl(i, j) = mb(i, j);
        }
        if (j >= i) {
          upper(i, j) = mu(i, j) = mb(i, j);
        }
        if (j > i) {
          strictly_upper(i, j) = msu(i, j) = ma(i, j);
        }
      }
    }
    Exactly(LowerToM(lower), ml, name + "lower triangle");
    Exactly(UpperToM(upper), mu, name + "upper triangle");
    Exactly(ToM(Matrix(lower)), ml, name + "lower triangle as matrix");
    Exactly(ToM(Matrix(upper)), mu, name + "upper triangle as matrix");
    Exactly(ToM(Matrix(strictly_lower)), msl,
            name + "strictly lower triangle as matrix");
    Exactly(ToM(Matrix(strictly_upper)), msu,
            name + "strictly upper triangle as matrix");
    FixedLowerTriangularMatrix<double, n, heap> const from_upper(
        TransposedView{upper});  // NOLINT
    FixedUpperTriangularMatrix<double, n, heap> const from_lower(
        TransposedView{lower});  // NOLINT
    Exactly(LowerToM(from_upper), Transpose(mu), name + "transposed upper");
    Exactly(UpperToM(from_lower), Transpose(ml), name + "transposed lower");
    // Row-major data.
    {
      constexpr int size = n * (n + 1) / 2;
      std::array<double, size> l;
      std::array<double, size> u;
      int kl = 0;
      int ku = 0;
      for (int i = 0; i < n; ++i) {
        for (int j = 0; j < n; ++j) {
          if (j <= i) {
            l[kl++] = ma(i, j);
          }
          if (j >= i) {
            u[ku++] = mb(i, j);
          }
        }
      }
      FixedLowerTriangularMatrix<double, n, heap> const lower2(l);
      FixedUpperTriangularMatrix<double, n, heap> const upper2(u);
      VERIF(lower2 == lower, name + "lower triangle from data", name);
      VERIF(upper2 == upper, name + "upper triangle from data", name);
      auto lower3 = lower2;
      lower3(n - 1, 0) += 1;
      VERIF(!(lower3 == lower2), name + "lower triangle !=", name);
      auto upper3 = upper2;
      upper3(0, n - 1) += 1;
      VERIF(!(upper3 == upper2), name + "upper triangle !=", name);
    }
    if constexpr (n > 1) {
      constexpr int size = n * (n - 1) / 2;
      std::array<double, size> l;
      std::array<double, size> u;
      int kl = 0;
      int ku = 0;
      for (int i = 0; i < n; ++i) {
        for (int j = 0; j < n; ++j) {
          if (j < i) {
            l[kl++] = mb(i, j);
          }
          if (j > i) {
            u[ku++] = ma(i, j);
          }
        }
      }
      FixedStrictlyLowerTriangularMatrix<double, n, heap> const lower2(l);
      FixedStrictlyUpperTriangularMatrix<double, n, heap> const upper2(u);
      VERIF(lower2 == strictly_lower, name + "strictly lower from data", name);
      VERIF(upper2 == strictly_upper, name + "strictly upper from data", name);
    }
  }
  Count(name + "containers");
}

void UnboundedContainers(Rng& r) {
  std::string const name = "unbounded ";
  int const m = Int(r, 1, 6);
  int const n = Int(r, 1, 6);
  M const ma = Integers(r, m, n);
  M const mb = Integers(r, m, n);
  auto const matrix = [](M const& x) {
    UnboundedMatrix<double> a(x.m, x.n);
    for (int i = 0; i < x.m; ++i) {
      for (int j = 0; j < x.n; ++j) {
        a(i, j) = x(i, j);
      }
    }
    return a;
  };
  auto const vector = [&](M const& x) {
    UnboundedVector<double> v(x.m);
    for (int i = 0; i < x.m; ++i) {
      VERIF(v[i] == 0, name + "vector zero", name);
      v[i] = x(i, 0);
    }
    return v;
  };
  auto const a = matrix(ma);
  auto const b = matrix(mb);
  Exactly(ToM(UnboundedMatrix<double>(m, n)), M(m, n), name + "zero");
  M const mv = Integers(r, n, 1);
  Case(name + Show(ma) + Show(mv));
  Operators(name, a, b, vector(mv), vector(Integers(r, n, 1)),
            vector(Integers(r, m, 1)), Int(r, -9, 9));
  M const mc = Integers(r, n, 3);
  Exactly(ToM(a * matrix(mc)), ma * mc, name + "product");
  Exactly(ToM(UnboundedMatrix<double>(TransposedView{a})),  // NOLINT
          Transpose(ma), name + "transpose");
  for (int i = 0; i < 2; ++i) {
    Views(r, name, a);
  }
  {
    M const sa = Integers(r, n, n);
    M const sb = Integers(r, n, n);
    auto c = matrix(sa);
    c *= matrix(sb);
    Exactly(ToM(c), sa * sb, name + "*= matrix");
    M const u = Integers(r, n, 1);
    M const v = Integers(r, n, 1);
    VERIF(matrix(sa)(vector(u), vector(v)) == (Transpose(u) * sa * v)(0, 0),
          name + "bilinear form", name);
    Exactly(ToM(UnboundedMatrix<double>::Identity(n, n)), Eye(n),
            name + "identity");
  }

  // Histories of extensions and truncations.
  {
    std::vector<double> model;
    UnboundedVector<double> v(0);
    int const size = Int(r, 0, 4);
    v.Extend(size);
    model.resize(size);
    UnboundedLowerTriangularMatrix<double> lower(1);
    UnboundedUpperTriangularMatrix<double> upper(1);
    UnboundedStrictlyUpperTriangularMatrix<double> strictly_upper(1);
    M ml(1, 1);
    M mu(1, 1);
    M msu(1, 1);
    auto const resize = [](M const& x, int const n) {
      M y(n, n);
      for (int i = 0; i < std::min(n, x.m); ++i) {
        for (int j = 0; j < std::min(n, x.n); ++j) {
          y(i, j) = x(i, j);
        }
      }
      return y;
    };
    for (int step = 0; step < 12; ++step) {
      // The vector.
      switch (Int(r, 0, 3)) {
        case 0: {
          int const extra = Int(r, 0, 3);
          v.Extend(extra);
          model.resize(model.size() + extra);
          break;
        }
        case 1: {
          double const x = Int(r, -9, 9);
          double const y = Int(r, -9, 9);
          v.Extend({x, y});
          model.push_back(x);
          model.push_back(y);
          break;
        }
        case 2: {
          int const begin = Int(r, 0, model.size());
          v.EraseToEnd(begin);
          model.resize(begin);
          break;
        }
        case 3: {
          int const extra = Int(r, 0, 3);
          v.Extend(extra, uninitialized);
          for (int i = 0; i < extra; ++i) {
            double const x = Int(r, -9, 9);
            v[model.size()] = x;
            model.push_back(x);
          }
          break;
        }
      }
      bool same = v.size() == model.size();
      for (int i = 0; same && i < model.size(); ++i) {
        same &= v[i] == model[i];
      }
      VERIF(same, name + "vector history", name);

      // The triangles.
      int const size = ml.m;
      int new_size = size;
      switch (Int(r, 0, 2)) {
        case 0: {
          int const extra = Int(r, 0, 2);
          new_size = size + extra;
          lower.Extend(extra);
          upper.Extend(extra);
          strictly_upper.Extend(extra);
          ml = resize(ml, new_size);
          mu = resize(mu, new_size);
          msu = resize(msu, new_size);
          break;
        }
        case 1: {
          // The rows that are added, and the columns that are added, by rows.
          new_size = size + 1;
          ml = resize(ml, new_size);
          mu = resize(mu, new_size);
          msu = resize(msu, new_size);
          for (int k = 0; k < new_size; ++k) {
            ml(size, k) = Int(r, -9, 9);
            mu(k, size) = Int(r, -9, 9);
            if (k < size) {
              msu(k, size) = Int(r, -9, 9);
            }
          }
          auto const l = [&](int const k) -> double { return ml(size, k); };
          auto const u = [&](int const k) -> double { return mu(k, size); };
          auto const su = [&](int const k) -> double { return msu(k, size); };
          switch (size) {
            case 1:
              lower.Extend({l(0), l(1)});
              upper.Extend({u(0), u(1)});
              strictly_upper.Extend({su(0)});
              break;
            case 2:
              lower.Extend({l(0), l(1), l(2)});
              upper.Extend({u(0), u(1), u(2)});
              strictly_upper.Extend({su(0), su(1)});
              break;
            case 3:
              lower.Extend({l(0), l(1), l(2), l(3)});
              upper.Extend({u(0), u(1), u(2), u(3)});
              strictly_upper.Extend({su(0), su(1), su(2)});
              break;
            default:
              lower.Extend(1);
              upper.Extend(1, uninitialized);
              strictly_upper.Extend(1, uninitialized);
              for (int k = 0; k < new_size; ++k) {
                lower(size, k) = l(k);
                upper(k, size) = u(k);
                if (k < size) {
                  strictly_upper(k, size) = su(k);
                }
              }
              break;
          }
          break;
        }
        case 2:
          new_size = Int(r, 1, size);
          lower.EraseToEnd(new_size);
          upper.EraseToEnd(new_size);
          strictly_upper.EraseToEnd(new_size);
          ml = resize(ml, new_size);
          mu = resize(mu, new_size);
          msu = resize(msu, new_size);
          break;
      }
      VERIF(lower.rows() == new_size && lower.columns() == new_size &&
                upper.rows() == new_size && upper.columns() == new_size &&
                strictly_upper.rows() == new_size &&
                strictly_upper.columns() == new_size,
            name + "size of triangles", name);
      Exactly(LowerToM(lower), ml, name + "lower triangle history");
      Exactly(UpperToM(upper), mu, name + "upper triangle history");
      Exactly(ToM(UnboundedMatrix<double>(lower)), ml,
              name + "lower triangle as matrix");
      Exactly(ToM(UnboundedMatrix<double>(upper)), mu,
              name + "upper triangle as matrix");
      Exactly(ToM(UnboundedMatrix<double>(strictly_upper)), msu,
              name + "strictly upper triangle as matrix");
      Exactly(LowerToM(UnboundedLowerTriangularMatrix<double>(
                  TransposedView{upper})),  // NOLINT
              Transpose(mu), name + "transposed upper");
      Exactly(UpperToM(UnboundedUpperTriangularMatrix<double>(
                  TransposedView{lower})),  // NOLINT
              Transpose(ml), name + "transposed lower");
      auto copy = upper;
      VERIF(copy == upper, name + "triangle ==", name);
      copy(0, new_size - 1) += 1;
      VERIF(copy != upper, name + "triangle !=", name);
      Count("extensions and truncations");
    }
  }
  Count(name + "containers");
}

void Containers() {
  Rng r = MakeRng("containers");
  for (int i = 0; i < N(1500); ++i) {
    SetCase("containers " + std::to_string(i));
    switch (Int(r, 0, 6)) {
      case 0:
        FixedContainers<1, 1, false>(r);
        break;
      case 1:
        FixedContainers<2, 5, false>(r);
        break;
      case 2:
        FixedContainers<4, 3, false>(r);
        break;
      case 3:
        FixedContainers<4, 4, false>(r);
        break;
      case 4:
        FixedContainers<3, 3, true>(r);
        break;
      case 5:
        FixedContainers<5, 2, true>(r);
        break;
      case 6:
        FixedContainers<3, 3, false>(r);
        break;
    }
    UnboundedContainers(r);
  }
}

// Lattices, exactly.
using Q = Dense<cpp_rational>;

Q ToQ(auto const& a) {
  Q q(a.rows(), a.columns());
  for (int i = 0; i < q.m; ++i) {
    for (int j = 0; j < q.n; ++j) {
      q(i, j) = cpp_rational(a(i, j));
    }
  }
  return q;
}

std::string Show(Q const& a) {
  std::string s = std::to_string(a.m) + "x" + std::to_string(a.n) + "{";
  for (auto const& x : a.a) {
    s += x.str() + ", ";
  }
  return s + "}";
}

// The solution of L T = B; nothing if L doesn't have full column rank, or if
// the columns of B are not combinations of those of L.
std::optional<Q> Express(Q l, Q b) {
  int const m = l.m;
  int const n = l.n;
  for (int k = 0; k < n; ++k) {
    int p = k;
    while (p < m && l(p, k) == 0) {
      ++p;
    }
    if (p == m) {
      return std::nullopt;
    }
    for (int j = 0; j < n; ++j) {
      std::swap(l(k, j), l(p, j));
    }
    for (int j = 0; j < b.n; ++j) {
      std::swap(b(k, j), b(p, j));
    }
    for (int i = 0; i < m; ++i) {
      if (i != k && l(i, k) != 0) {
        cpp_rational const f = l(i, k) / l(k, k);
        for (int j = 0; j < n; ++j) {
          l(i, j) -= f * l(k, j);
        }
        for (int j = 0; j < b.n; ++j) {
          b(i, j) -= f * b(k, j);
        }
      }
    }
  }
  Q t(n, b.n);
  for (int i = 0; i < m; ++i) {
    for (int j = 0; j < b.n; ++j) {
      if (i < n) {
        t(i, j) = b(i, j) / l(i, i);
      } else if (b(i, j) != 0) {
        return std::nullopt;
      }
    }
  }
  return t;
}

bool IsIntegral(Q const& q) {
  for (auto const& x : q.a) {
    if (denominator(x) != 1) {
      return false;
    }
  }
  return true;
}

// The coefficients and the squared norms of Gram and Schmidt.
void GramSchmidt(Q const& b, Q& μ, std::vector<cpp_rational>& norm²) {
  Q s = b;
  norm².assign(b.n, 0);
  for (int j = 0; j < b.n; ++j) {
    for (int k = 0; k < j; ++k) {
      cpp_rational dot = 0;
      for (int i = 0; i < b.m; ++i) {
        dot += b(i, j) * s(i, k);
      }
      μ(k, j) = dot / norm²[k];
      for (int i = 0; i < b.m; ++i) {
        s(i, j) -= μ(k, j) * s(i, k);
      }
    }
    for (int i = 0; i < b.m; ++i) {
      norm²[j] += s(i, j) * s(i, j);
    }
  }
}

// η and δ as in the article of Nguyễn and Stehlé.
void CheckReduced(Q const& l, Q const& b, double const η, double const δ,
                  std::string const& key, std::string const& what) {
  auto const t = Express(l, b);
  auto const u = Express(b, l);
  if (!t || !u) {
    Fail(key + ": another space", what + " gives " + Show(b));
    return;
  }
  VERIF(IsIntegral(*t) && IsIntegral(*u), key + ": another lattice",
        what + " gives " + Show(b));
  Q μ(b.n, b.n);
  std::vector<cpp_rational> norm²;
  GramSchmidt(b, μ, norm²);
  for (int j = 0; j < b.n; ++j) {
    for (int k = 0; k < j; ++k) {
      VERIF(abs(μ(k, j)) <= cpp_rational(η), key + ": sizes are not reduced",
            what + " gives " + Show(b));
    }
    if (j > 0) {
      VERIF(norm²[j] >=
                (cpp_rational(δ) - μ(j - 1, j) * μ(j - 1, j)) * norm²[j - 1],
            key + ": Lovász's condition", what + " gives " + Show(b));
    }
  }
}

cpp_int RandomInteger(Rng& r, int const bits) {
  cpp_int x = 0;
  for (int i = 0; i < bits; i += 30) {
    x = (x << 30) + Int(r, 0, (1 << 30) - 1);
  }
  x &= (cpp_int(1) << bits) - 1;
  return Chance(r, 0.5) ? x : cpp_int(-x);
}

template<int m, int n>
void RandomLattice(Rng& r) {
  FixedMatrix<cpp_int, m, n> l;
  int const bits = Int(r, 2, Chance(r, 0.3) ? 110 : 20);
  int const kind = Int(r, 0, 3);
  for (int i = 0; i < m; ++i) {
    for (int j = 0; j < n; ++j) {
      switch (kind) {
        case 0:
          l(i, j) = RandomInteger(r, bits);
          break;
        case 1:
          // As in simultaneous approximation.
          l(i, j) = i == 0 ? RandomInteger(r, bits)
                           : i == j ? cpp_int(3) : cpp_int(0);
          break;
        case 2:
          // Vectors of very different sizes.
          l(i, j) = RandomInteger(r, 2 + (j * bits) / n);
          break;
        case 3:
          // Triangular.
          l(i, j) = i == j ? abs(RandomInteger(r, bits)) + 1
                           : i < j ? RandomInteger(r, bits) : cpp_int(0);
          break;
      }
    }
  }
  Q const ql = ToQ(l);
  std::string const what = "lattice " + Show(ql);
  SetCase(what);
  if (!Express(ql, ql)) {
    Count("not bases");
    return;
  }
  Case(what);
  Watchdog watchdog("reduction does not terminate", 120);

  CheckReduced(ql, ToQ(NguyễnStehlé(l)), 0.5501, 0.7499, "Nguyễn-Stehlé",
               what);
  Count("reductions, " + std::to_string(m) + "x" + std::to_string(n));
  Max("bits", bits);

  if (bits < 40) {
    FixedMatrix<cpp_rational, m, n> rational;
    for (int i = 0; i < m; ++i) {
      for (int j = 0; j < n; ++j) {
        rational(i, j) = cpp_rational(l(i, j));
      }
    }
    // A scaling leaves everything unchanged.
    cpp_rational const scale(1, Int(r, 1, 5));
    Q scaled = ql;
    for (int i = 0; i < m; ++i) {
      for (int j = 0; j < n; ++j) {
        rational(i, j) *= scale;
        scaled(i, j) *= scale;
      }
    }
    CheckReduced(scaled, ToQ(LenstraLenstraLovász(rational)), 0.5, 0.75,
                 "Lenstra-Lenstra-Lovász", what);
    Count("exact reductions");
  }

  // Exact Gram-Schmidt.
  {
    auto const qr = UnitriangularGramSchmidt(l);
    Q const q = ToQ(qr.Q);
    Q t(n, n);
    for (int j = 0; j < n; ++j) {
      for (int i = 0; i <= j; ++i) {
        t(i, j) = qr.R(i, j);
      }
      VERIF(t(j, j) == 1, "rational QR: diagonal", what);
    }
    VERIF((q * t).a == ql.a, "rational QR", what);
    Q const gram = Transpose(q) * q;
    for (int i = 0; i < n; ++i) {
      for (int j = 0; j < n; ++j) {
        VERIF((gram(i, j) == 0) == (i != j), "rational QR: orthogonality",
              what);
      }
    }
  }

  if (bits <= 12) {
    FixedMatrix<double, m, n> floating;
    for (int i = 0; i < m; ++i) {
      for (int j = 0; j < n; ++j) {
        floating(i, j) = static_cast<double>(l(i, j));
      }
    }
    CheckReduced(ql, ToQ(NguyễnStehlé(floating)), 0.5501, 0.7499,
                 "Nguyễn-Stehlé in double", what);
    Count("floating-point reductions");
  }
}

void Lattices() {
  Rng r = MakeRng("lattices");
  for (int i = 0; i < N(400); ++i) {
    switch (Int(r, 0, 5)) {
      case 0:
        RandomLattice<2, 2>(r);
        break;
      case 1:
        RandomLattice<3, 3>(r);
        break;
      case 2:
        RandomLattice<5, 4>(r);
        break;
      case 3:
        RandomLattice<4, 2>(r);
        break;
      case 4:
        RandomLattice<5, 5>(r);
        break;
      case 5:
        RandomLattice<6, 6>(r);
        break;
    }
  }
}

template<typename Value, int size>
void Transform(Rng& r) {
  std::array<Value, size> values;
  std::vector<LD> u(size);
  int const kind = Int(r, 0, 3);
  LD norm = 0;
  LD const unit = 1;
  double const frequency = Uniform(r, 0, 4);
  for (int i = 0; i < size; ++i) {
    double const x =
        kind == 0 ? Uniform(r, -1, 1) :
        kind == 1 ? LogUniform(r, -20, 20) :
        kind == 2 ? std::sin(frequency * i) + (Chance(r, 0.1) ? 1 : 0) :
        Chance(r, 0.1) ? Int(r, -5, 5) : 0.0;
    values[i] = x * principia::quantities::_si::Unit<Value>;
    u[i] = x;
    norm += LD(x) * x;
  }
  norm = std::sqrt(norm);
  double const Δt = std::ldexp(Uniform(r, 1, 2), Int(r, -20, 20));
  std::string const what = "transform " + std::to_string(size) + " kind " +
                           std::to_string(kind) + " step " + Str(Δt) +
                           " first " + Str(static_cast<double>(u[0])) + " " +
                           Str(static_cast<double>(u[size - 1]));
  SetCase(what);
  Case(what);
  using FFT = FastFourierTransform<Value, Time, size>;
  FFT const transform(values, Δt * Second);
  std::vector<Value> const as_vector(values.begin(), values.end());
  FFT const from_container(as_vector, Δt * Second);
  auto const spectrum = transform.PowerSpectrum();
  VERIF(spectrum.size() == size, "transform: size of the spectrum", what);
  auto it = spectrum.begin();
  std::vector<LD> power(size);
  LD const two_π = 2 * 3.14159265358979323846264338327950288L;
  for (int s = 0; s < size; ++s) {
    LD re = 0;
    LD im = 0;
    for (int k = 0; k < size; ++k) {
      int const phase = (s * k) % size;
      LD const angle = -two_π * phase / size;
      re += u[k] * std::cos(angle);
      im += u[k] * std::sin(angle);
    }
    power[s] = re * re + im * im;
    auto const& z = transform[s];
    LD const a = z.real_part() / principia::quantities::_si::Unit<Value>;
    LD const b = z.imaginary_part() / principia::quantities::_si::Unit<Value>;
    LD const tolerance =
        20 * ε * (1 + std::log2(LD(size))) * std::sqrt(LD(size)) * norm;
    VERIF(std::abs(a - re) <= tolerance && std::abs(b - im) <= tolerance,
          "transform", what + " at " + std::to_string(s));
    VERIF(from_container[s] == z, "transform: of a container", what);
    LD const ω = two_π * s / (LD(size) * Δt);
    LD const actual_ω = transform.frequency(s) / (Radian / Second);
    VERIF(std::abs(actual_ω - ω) <= 8 * ε * ω, "transform: frequency", what);
    if (it != spectrum.end()) {
      VERIF(it->first == transform.frequency(s), "transform: spectrum", what);
      LD const p = it->second / (principia::quantities::_si::Unit<Value> *
                                 principia::quantities::_si::Unit<Value>);
      VERIF(std::abs(p - (a * a + b * b)) <= 4 * ε * (a * a + b * b),
            "transform: power", what);
      power[s] = p;
      ++it;
    }
  }
  Count("transforms of size " + std::to_string(size));

  if constexpr (size >= 4) {
    // The highest peak in a range.
    int const s1 = Int(r, 0, size / 2);
    int const s2 = Int(r, s1, size / 2);
    int best = s1;
    for (int s = s1; s <= s2; ++s) {
      if (power[s] > power[best]) {
        best = s;
      }
    }
    auto const ω = [&](double const s) {
      return s * 2 * π * Radian / (size * (Δt * Second));
    };
    auto const mode = transform.Mode(ω(s1 - 0.3), ω(s2 + 0.3));
    auto const lo = transform.frequency(best == 0 ? 0 : best - 1);
    auto const hi = transform.frequency(best + 1);
    VERIF(mode.min == lo && mode.max == hi, "transform: mode",
          what + " in " + std::to_string(s1) + " " + std::to_string(s2));
    Count("modes");
  }
}

void Transforms() {
  Rng r = MakeRng("transforms");
  for (int i = 0; i < N(60); ++i) {
    Transform<double, 2>(r);
    Transform<Length, 4>(r);
    Transform<double, 8>(r);
    Transform<Length, 16>(r);
    Transform<double, 32>(r);
    Transform<double, 64>(r);
    if (i % 4 == 0) {
      Transform<Length, 256>(r);
    }
    if (i % 20 == 0) {
      Transform<double, 1024>(r);
    }
  }
}

void Body() {
  if (Selected("matrices")) {
    Matrices();
  }
  if (Selected("containers")) {
    Containers();
  }
  if (Selected("lattices")) {
    Lattices();
  }
  if (Selected("transforms")) {
    Transforms();
  }
}

}  // namespace verif

VERIF_MAIN(verif::Body)
