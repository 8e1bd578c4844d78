// C21: histories of operations on block matrices against dense matrices, refused operations included.
#include "humoto/humoto.h"
#include "sim/sim.h"
#include <cmath>
#include <type_traits>
#include <vector>
typedef Eigen::MatrixXd M; typedef Eigen::VectorXd V; typedef etools::MatrixSparsityType S; typedef std::ptrdiff_t I;
namespace
{
    const int DYN = etools::MatrixBlockSizeType::DYNAMIC, UNDEF = etools::MatrixBlockSizeType::UNDEFINED;
    template<class A, class B> void same(const char* cls, const char* what, const A& got_, const B& want_, double eps = 0)
    {
        M got = got_, want = want_;
        if (got.rows() != want.rows() || got.cols() != want.cols()) sim::fail(cls, "%s: the size is %ldx%ld instead of %ldx%ld", what, (long)got.rows(), (long)got.cols(), (long)want.rows(), (long)want.cols());
        for (I i = 0; i < got.rows(); ++i) for (I j = 0; j < got.cols(); ++j) if (!(std::fabs(got(i, j) - want(i, j)) <= eps)) sim::fail(cls, "%s: element (%ld, %ld) of %ldx%ld is %.15g instead of %.15g", what, (long)i, (long)j, (long)got.rows(), (long)got.cols(), got(i, j), want(i, j));
        sim::digestDouble(got.size() ? got.sum() : 0);
    }
    const double EPS = 1e-11;
    double value() { uint32_t k = sim::choose(4); return k == 3 ? 0 : k ? sim::num(-10, 10) : sim::range(1, 5); }
    M random(I r, I c) { M m(r, c); for (I i = 0; i < m.size(); ++i) m.data()[i] = value(); return m; }
    V randomV(I n) { return random(n, 1).col(0); }
    // a request which cannot be satisfied must be refused
    template<class F> void refused(const char* what, F f)
    {
        bool thrown = false; try { f(); } catch (const std::exception&) { thrown = true; } sim::count("fault:refused-request"); if (!thrown) sim::fail("accepted", "%s is not refused", what);
    }
    M kron(const M& m, I br, I bc, I k)
    {
        M r = M::Zero(m.rows() * k, m.cols() * k); for (I i = 0; i < m.rows(); ++i) for (I j = 0; j < m.cols(); ++j) for (I q = 0; q < k; ++q) r((i / br * k + q) * br + i % br, (j / bc * k + q) * bc + j % bc) = m(i, j); return r;
    }
    M plain(const M& a, const M& b) { M r = M::Zero(a.rows(), b.cols()); for (I i = 0; i < a.rows(); ++i) for (I j = 0; j < b.cols(); ++j) for (I k = 0; k < a.cols(); ++k) r(i, j) += a(i, k) * b(k, j); return r; }
    M sparse(M m, I br, I bc, int s) { for (I i = 0; i < m.rows(); ++i) for (I j = 0; j < m.cols(); ++j) if (s == S::DIAGONAL ? i / br != j / bc : s == S::LEFT_LOWER_TRIANGULAR && i / br < j / bc) m(i, j) = 0; return m; }
    M diag(I n, I r, I c) { return sparse(random(n * r, n * c), r, c, S::DIAGONAL); }

    template<int R, int C, S::Type s> struct History
    {
        typedef etools::BlockMatrix<R, C, s> X;
        I r, c; X x; M ref;      // ref is what the matrix has to be
        I blockRows() { return R > 0 ? R : sim::range(1, 3); }
        I blockCols() { return C > 0 ? C : sim::range(1, 3); }
        I argR() const { return R > 0 ? UNDEF : r; }
        I argC() const { return C > 0 ? UNDEF : c; }
        I nv() const { return ref.rows() / r; }
        I nh() const { return ref.cols() / c; }
        void shape(I& v, I& h) { v = sim::range(1, 4); h = s == S::NONE ? sim::range(1, 4) : v; if (sim::chance(1, 10)) { v = 0; if (s != S::NONE) h = 0; } else if (s == S::LEFT_LOWER_TRIANGULAR && R != 1 && sim::chance(1, 4)) v += 1; }
        M content(I v, I h) { return sparse(random(v * r, h * c), r, c, s); }
        History() : r(blockRows()), c(blockCols()), x(argR(), argC()) { I v, h; shape(v, h); ref = content(v, h); x.set(ref); }
        template<class T> void sizes(const T& t, const M& m)
        {
            if (t.getNumberOfBlocksVertical() != m.rows() / r || t.getNumberOfBlocksHorizontal() != m.cols() / c) sim::fail("wrong-size", "%ldx%ld blocks instead of %ldx%ld", (long)t.getNumberOfBlocksVertical(), (long)t.getNumberOfBlocksHorizontal(), (long)(m.rows() / r), (long)(m.cols() / c));
            if (t.getNumberOfRows() != m.rows() || t.getNumberOfColumns() != m.cols()) sim::fail("wrong-size", "%ldx%ld elements instead of %ldx%ld", (long)t.getNumberOfRows(), (long)t.getNumberOfColumns(), (long)m.rows(), (long)m.cols());
            if (t.getBlockRowsNum() != r || t.getBlockColsNum() != c) sim::fail("wrong-size", "a block is %ldx%ld instead of %ldx%ld", (long)t.getBlockRowsNum(), (long)t.getBlockColsNum(), (long)r, (long)c);
        }
        template<class T> void put(T& t, M& m, I i, I j)
        {
            M b = random(r, c); m.block(i * r, j * c, r, c) = b;
            if constexpr (R == 1 && C == 1) { if (i == j && sim::chance(1, 2)) t(i) = b(0, 0); else t(i, j) = b(0, 0); } else { if (i == j && sim::chance(1, 2)) t(i) = b; else t(i, j) = b; }
        }
        template<class T> M get(T& t, I i, I j)
        {
            if constexpr (R == 1 && C == 1) return M::Constant(1, 1, i == j && sim::chance(1, 2) ? t(i) : t(i, j)); else return i == j && sim::chance(1, 2) ? M(t(i)) : M(t(i, j));
        }
        template<class T> void write(T& t, M& m)
        {
            if (!m.size()) return; I v = m.rows() / r, h = m.cols() / c, i = sim::choose(v), j = sim::choose(h);
            if (s == S::DIAGONAL) { i = j = sim::choose(std::min(v, h)); put(t, m, i, j); return; }
            if (s == S::LEFT_LOWER_TRIANGULAR && i < j) std::swap(i, j); if (i >= v || j >= h) return;
            switch (sim::choose(3))
            {
                case 0: put(t, m, i, j); break;
                case 1: { I first = s == S::NONE ? sim::choose(h) : 0, n = s == S::NONE ? sim::range(1, h - first) : std::min(i + 1, h); M b = random(r, n * c); m.block(i * r, first * c, r, n * c) = b; if (first + n == h && sim::chance(1, 2)) { if (!first && sim::chance(1, 2)) t.row(i) = b; else t.row(i, first) = b; } else t.row(i, first, n) = b; break; }
                default: { I first = s == S::NONE ? sim::choose(v) : j, n = s == S::NONE ? sim::range(1, v - first) : v - first; M b = random(n * r, c); m.block(first * r, j * c, n * r, c) = b; if (first + n == v && sim::chance(1, 2)) { if (!first && sim::chance(1, 2)) t.column(j) = b; else t.column(j, first) = b; } else t.column(j, first, n) = b; }
            }
        }
        template<class T> void read(const char* what, T& t, const M& m)
        {
            sizes(t, m); same("wrong-content", what, t.getRaw(), m); if (!m.size()) return; I v = m.rows() / r, h = m.cols() / c, i = sim::choose(v), j = sim::choose(h), f = sim::choose(h), n = sim::range(1, h - f), g = sim::choose(v), q = sim::range(1, v - g); if (sim::chance(1, 3) && i < h) j = i;
            same("wrong-block", what, get(t, i, j), m.block(i * r, j * c, r, c));
            same("wrong-row", what, t.row(i), m.block(i * r, 0, r, m.cols())); same("wrong-row", what, t.row(i, f), m.block(i * r, f * c, r, m.cols() - f * c)); same("wrong-row", what, t.row(i, f, n), m.block(i * r, f * c, r, n * c));
            same("wrong-column", what, t.column(j), m.block(0, j * c, m.rows(), c)); same("wrong-column", what, t.column(j, g), m.block(g * r, j * c, m.rows() - g * r, c)); same("wrong-column", what, t.column(j, g, q), m.block(g * r, j * c, q * r, c));
        }
        template<class T> void multiply(const T& t, const M& m)
        {
            M b = random(m.cols(), sim::range(1, 5)); M out = random(sim::range(1, 3), sim::range(1, 3)); same("wrong-product", "block matrix by a matrix", t * b, plain(m, b), EPS * 1e4); t.multiplyRight(out, b); same("wrong-product", "block matrix by a matrix", out, plain(m, b), EPS * 1e4);
            V w = randomV(m.cols()); V vout; t.multiplyRight(vout, w); same("wrong-product", "block matrix by a vector", vout, plain(m, w), EPS * 1e4); if constexpr (R != 1 || C != 1 || s != S::LEFT_LOWER_TRIANGULAR) same("wrong-product", "block matrix by a vector", t * w, plain(m, w), EPS * 1e4); if (m.cols() > 1) { M wide = random(m.cols() + 2, 4); M want = plain(m, wide.block(1, 1, m.cols(), 2)); same("wrong-product", "block matrix by a part of a matrix", t * wide.block(1, 1, m.cols(), 2), want, EPS * 1e4); }
            if constexpr (s == S::DIAGONAL)
            {
                M l = random(sim::range(1, 5), m.rows()); t.multiplyLeft(out, l); same("wrong-product", "matrix by a diagonal block matrix", out, plain(l, m), EPS * 1e4);
                if (sim::chance(1, 3)) { refused("a product of matrices of different sizes", [&] { t * random(m.cols() + 1, 2); }); refused("a product of matrices of different sizes", [&] { M o; t.multiplyLeft(o, random(2, m.rows() + 1)); }); }
            }
            // the other side is a block matrix as well
            if constexpr (C > 0)
            {
                I n = m.cols() / c; { M d = diag(n, c, 2); etools::DiagonalBlockMatrix<C, 2> dm(d); same("wrong-product", "block matrix by a diagonal block matrix", t * dm, plain(m, d), EPS * 1e4); }
                if constexpr (s == S::DIAGONAL) { M g = random(n * c, 3 * sim::range(1, 3)); etools::GenericBlockMatrix<C, 3> gm(g); same("wrong-product", "block matrix by a block matrix", t * gm, plain(m, g), EPS * 1e4); }
                if constexpr (s == S::DIAGONAL) { M d = sparse(random(n * c, n * 2), c, 2, S::LEFT_LOWER_TRIANGULAR); etools::LeftLowerTriangularBlockMatrix<C, 2> dm(d); same("wrong-product", "block matrix by a triangular block matrix", t * dm, plain(m, d), EPS * 1e4); }
            }
        }
        template<class K> void product(const char* what, const K& p, const M& m, I k, I br)
        {
            M want = kron(m, br, c, k), out = random(2, 3); p.evaluate(out); same("wrong-kronecker-product", what, out, want);
            if (want.size()) { M big = M::Constant(want.rows() + 3, want.cols() + 3, 7), ref2 = big; ref2.block(1, 2, want.rows(), want.cols()) = want; p.evaluate(big.block(1, 2, want.rows(), want.cols())); same("wrong-kronecker-product", what, big, ref2); }
        }
        template<class K> void productVector(const char* what, const K& p, const M& m, I k, I br)
        {
            M want = kron(m, br, c, k); V w = randomV(want.cols()); same("wrong-kronecker-product", what, p * w, plain(want, w), EPS * 1e4); if (want.cols() == 4) { Eigen::Vector4d f = w; same("wrong-kronecker-product", what, p * f, plain(want, w), EPS * 1e4); }
        }
        // blocks of the diagonal matrix are as wide as those of the product
        template<int D, class K> void productDiagonal(const char* what, const K& p, const M& m, I k, I br)
        {
            M want = kron(m, br, c, k), d = diag(m.cols() / c, c * k, D); etools::DiagonalBlockMatrix<DYN, DYN> dm(d, c * k, D); M out = random(2, 2); p.multiplyRight(out, dm); same("wrong-kronecker-product", what, out, plain(want, d), EPS * 1e4); same("wrong-kronecker-product", what, p * dm, plain(want, d), EPS * 1e4);
            if (m.size() && sim::chance(1, 4)) { M e = diag(m.cols() / c, c * k + 1, D); etools::DiagonalBlockMatrix<DYN, DYN> em(e, c * k + 1, D); refused("a product with blocks of different sizes", [&] { M o; p.multiplyRight(o, em); }); M g = diag(m.cols() / c + 1, c * k, D); etools::DiagonalBlockMatrix<DYN, DYN> gm(g, c * k, D); refused("a product with different numbers of blocks", [&] { M o; p.multiplyRight(o, gm); }); }
        }
        template<int k, int D, class K> void productScalarDiagonal(const char* what, const K& p, const M& m)
        {   // 1x1 blocks are multiplied by diagonal matrices whose blocks have constant sizes
            M want = kron(m, 1, 1, k), d = diag(m.cols(), k, D), out = random(2, 2); etools::DiagonalBlockMatrix<k, D> dm(d); p.multiplyRight(out, dm); same("wrong-kronecker-product", what, out, plain(want, d), EPS * 1e4); same("wrong-kronecker-product", what, p * dm, plain(want, d), EPS * 1e4);
            { etools::DiagonalBlockMatrix<DYN, DYN> ym(d, k, D); M o = random(2, 2); p.multiplyRight(o, ym); same("wrong-kronecker-product", what, o, plain(want, d), EPS * 1e4); }
            M e = diag(m.cols(), k, k); etools::DiagonalBlockMatrix<k, k> em(e); same("wrong-kronecker-product", what, p * em, plain(want, e), EPS * 1e4);
            if constexpr (s == S::LEFT_LOWER_TRIANGULAR) if (m.rows() == m.cols()) { p.multiplyLeft(out, em); same("wrong-kronecker-product", what, out, plain(e, want), EPS * 1e4); same("wrong-kronecker-product", what, em * p, plain(e, want), EPS * 1e4); etools::DiagonalBlockMatrix<DYN, k> ym(e, k); M o = random(1, 2); p.multiplyLeft(o, ym); same("wrong-kronecker-product", what, o, plain(e, want), EPS * 1e4); }
            if (m.size() && sim::chance(1, 4)) { M g = diag(m.cols() + 1, k, k); etools::DiagonalBlockMatrix<k, k> gm(g); refused("a product with different numbers of blocks", [&] { M o; p.multiplyRight(o, gm); }); M f = diag(m.cols(), k + 1, k + 1); etools::DiagonalBlockMatrix<k + 1, k + 1> fm(f); refused("a product with blocks of different sizes", [&] { M o; p.multiplyRight(o, fm); }); }
        }
        template<class K> void products(const char* what, const K& p, const M& m, I k, I br)
        {
            product(what, p, m, k, br); if constexpr (s != S::LEFT_LOWER_TRIANGULAR) productVector(what, p, m, k, br);
            if constexpr (R == 1 && C == 1) { if (k == 2) { productScalarDiagonal<2, 2>(what, p, m); productScalarDiagonal<2, 3>(what, p, m); } else if (k == 3) productScalarDiagonal<3, 3>(what, p, m); }
            else { productDiagonal<2>(what, p, m, k, br); productDiagonal<5>(what, p, m, k, br); }
        }
        void kronecker()
        {
            I k = sim::range(2, 4); products("kronecker product", x.getBlockKroneckerProduct(k), ref, k, r); same("wrong-kronecker-product", "evaluated", x.getBlockKroneckerProduct(k).evaluate(), kron(ref, r, c, k)); same("wrong-kronecker-product", "explicit", etools::multiplyBlockKroneckerIdentity(ref, r, c, k), kron(ref, r, c, k));
            etools::BlockKroneckerProductBase<const M&, R, C, s> q(ref, k, argR(), argC()); products("kronecker product of a matrix", q, ref, k, r); if (sim::chance(1, 6)) { refused("an identity matrix of size 1", [&] { x.getBlockKroneckerProduct(1); }); }
        }
        M selected(I row) { M m(nv(), ref.cols()); for (I i = 0; i < nv(); ++i) m.row(i) = ref.row(i * r + row); return m; }
        void select()
        {
            if (!ref.size()) return; I row = sim::choose(r); M m = selected(row); same("wrong-selection", "rows as a matrix", x.selectRowInBlocksAsMatrix(row), m);
            typename X::SelectionMap p = x.selectRowInBlocks(row); same("wrong-selection", "rows", p.getRaw(), m);
            if (p.getNumberOfRows() != m.rows() || p.getNumberOfColumns() != m.cols() || p.getNumberOfBlocksVertical() != nv() || p.getNumberOfBlocksHorizontal() != nh() || p.getBlockRowsNum() != 1 || p.getBlockColsNum() != c) sim::fail("wrong-selection", "the selected rows are %ldx%ld blocks of size %ldx%ld instead of %ldx%ld of size 1x%ld", (long)p.getNumberOfBlocksVertical(), (long)p.getNumberOfBlocksHorizontal(), (long)p.getBlockRowsNum(), (long)p.getBlockColsNum(), (long)nv(), (long)nh(), (long)c);
            M b = random(m.cols(), 2); M out; p.multiplyRight(out, b); same("wrong-selection", "product", out, plain(m, b), EPS * 1e4);
            I k = sim::range(2, 3); auto q = p.getBlockKroneckerProduct(k); product("kronecker product of selected rows", q, m, k, 1); if constexpr (s != S::LEFT_LOWER_TRIANGULAR) productVector("kronecker product of selected rows", q, m, k, 1);
            // selections follow the matrix
            write(x, ref); same("wrong-selection", "rows of a modified matrix", p.getRaw(), selected(row));
        }
        void resizing()
        {
            I v, h; shape(v, h); uint32_t how = sim::choose(5);
            if (how == 1) { if (v == h && sim::chance(1, 2)) x.setZero(v); else x.setZero(v, h); ref = M::Zero(v * r, h * c); return; }
            if (how == 2) { if (v == h && sim::chance(1, 2)) x.resize(v); else x.resize(v, h); M old = x.getRaw(); sizes(x, M(v * r, h * c)); }
            if ((R < 0 || C < 0) && how == 3)
            {   // other blocks in the same matrix
                I nr = blockRows(), nc = blockCols(); bool ok = ref.rows() % nr == 0 && ref.cols() % nc == 0;
                if (!ok) { refused("a size of blocks which does not divide the size of the matrix", [&] { x.setBlockSize(R > 0 ? UNDEF : nr, C > 0 ? UNDEF : nc); }); x.setBlockSize(argR(), argC()); read("after a refused request", x, ref); return; }
                x.setBlockSize(R > 0 ? UNDEF : nr, C > 0 ? UNDEF : nc); r = nr; c = nc; if (s == S::NONE) { sizes(x, ref); same("wrong-content", "with other blocks", x.getRaw(), ref); return; } shape(v, h);
            }
            if (how == 4 && (r > 1 || c > 1)) { I a = v * r + (r > 1), b = h * c + (r == 1); refused("a matrix whose size is not a multiple of the size of blocks", [&] { x.set(random(a, b)); }); x.set(ref); read("after a refused matrix", x, ref); return; }
            ref = content(v, h); if (sim::chance(1, 2)) { M wide = M::Zero(ref.rows() + 1, ref.cols() + 2); wide.block(1, 1, ref.rows(), ref.cols()) = ref; x.set(wide.block(1, 1, ref.rows(), ref.cols())); } else x.set(ref);
        }
        void views()
        {   // the same matrix seen through an interface
            M m = ref; { etools::BlockMatrixInterface<R, C, s> i(m, argR(), argC()); read("interface", i, ref); M n = ref; write(i, n); write(i, n); same("wrong-content", "written through an interface", m, n); multiply(i, n); if (sim::chance(1, 3)) { M z = content(2, 2); i.set(z); same("wrong-content", "set through an interface", m, z); sizes(i, z); } }
            const etools::ConstBlockMatrixInterface<R, C, s> k(ref, argR(), argC()); read("constant interface", k, ref); multiply(k, ref);
            // copies are independent
            X y(x); M n = ref; write(y, n); same("wrong-content", "copy", y.getRaw(), n); same("wrong-content", "original of a modified copy", x.getRaw(), ref); y = x; same("wrong-content", "assigned copy", y.getRaw(), ref); const X& z = x; read("constant", z, ref);
            X w(ref, argR(), argC()); read("constructed from a matrix", w, ref); if (R > 0 && sim::chance(1, 3)) { refused("a size of blocks given twice", [&] { X q(R, argC()); }); }
        }
        void run()
        {
            int n = sim::range(1, sim::thorough() ? 30 : 12); sim::event("%dx%d blocks, %d: %ldx%ld", R, C, (int)s, (long)ref.rows(), (long)ref.cols()); read("initial", x, ref);
            for (int i = 0; i < n; ++i)
            {
                uint32_t op = sim::choose(7); sim::state(sim::mix(sim::mix((R + 2) * 100 + (C + 2) * 10 + s, op), sim::mix(nv(), nh())));
                switch (op) { case 0: write(x, ref); break; case 1: resizing(); break; case 2: multiply(x, ref); break; case 3: kronecker(); break; case 4: select(); break; case 5: views(); break; default: write(x, ref); write(x, ref); }
                read("after an operation", x, ref); sim::step(); sim::nontrivial();
            }
        }
    };
    template<int R, int C> void blocks() { switch (sim::choose(3)) { case 0: History<R, C, S::NONE>().run(); break; case 1: History<R, C, S::DIAGONAL>().run(); break; default: History<R, C, S::LEFT_LOWER_TRIANGULAR>().run(); } }

    // ---------------- matrices which are assembled, changed and selected from without blocks ----------------
    M lower(const M& m) { M r = m; for (I i = 0; i < r.rows(); ++i) for (I j = i + 1; j < r.cols(); ++j) r(i, j) = 0; return r; }
    template<class T> void dimensions(int r, int c) { T t; if (t.rows() != r || t.cols() != c) sim::fail("wrong-size", "Matrix%dx%d is %ldx%ld", r, c, (long)t.rows(), (long)t.cols()); t = random(r, c); }
    void types()
    {
        dimensions<etools::Matrix1x2>(1, 2); dimensions<etools::Matrix1x3>(1, 3); dimensions<etools::Matrix1x6>(1, 6); dimensions<etools::Matrix2x3>(2, 3); dimensions<etools::Matrix3x2>(3, 2); dimensions<etools::Matrix6x2>(6, 2); dimensions<etools::Matrix3>(3, 3); dimensions<etools::Vector6>(6, 1);
    }
    void assemblies()
    {
        if (sim::chance(1, 20)) types();
        M h, want; int n = sim::range(1, 14); I size = sim::range(1, 6); h = M::Zero(size, size); want = h; M pile = random(sim::range(1, 4), sim::range(1, 4)), stack = pile; sim::event("assembly of %ld", (long)size);
        for (int q = 0; q < n; ++q)
        {
            uint32_t op = sim::choose(9); sim::state(sim::mix(op, sim::mix(size, sim::mix(pile.rows(), pile.cols())))); sim::step(); sim::nontrivial();
            switch (op)
            {
                case 0: { M a = random(sim::range(1, 5), size); etools::addATA(h, a); want += plain(a.transpose(), a); break; }
                case 1: { I w = sim::range(1, size), o = sim::choose(size - w + 1); M a = random(sim::range(1, 5), w); etools::addATA(h, a, o); want.block(o, o, w, w) += plain(a.transpose(), a); break; }
                case 2: { M a = random(sim::range(1, 5), size); etools::getATA(h, a); want = plain(a.transpose(), a); break; }
                case 3: { size = sim::range(1, 6); I w = sim::range(1, size), o = sim::choose(size - w + 1); M a = random(sim::range(1, 5), w); etools::getATA(h, a, o, size); want = M::Zero(size, size); want.block(o, o, w, w) = plain(a.transpose(), a); break; }
                case 4: { for (I i = 0; i < h.rows(); ++i) for (I j = i + 1; j < h.cols(); ++j) h(i, j) = 77; etools::convertLLTtoSymmetric(h); same("wrong-assembly", "symmetric matrix", h, want, EPS * 1e5); break; }
                case 5:
                {
                    if (sim::chance(1, 4)) { refused("a removal of a column which does not exist", [&] { M o = pile; etools::removeColumn(o, o.cols()); }); refused("a removal of a row which does not exist", [&] { M o = pile; etools::removeRow(o, o.rows()); }); break; }
                    if (pile.cols() > 1 && sim::chance(1, 2)) { I k = sim::choose(pile.cols()); etools::removeColumn(pile, k); M s(stack.rows(), stack.cols() - 1); s << stack.leftCols(k), stack.rightCols(stack.cols() - 1 - k); stack = s; }
                    else if (pile.rows() > 1) { I k = sim::choose(pile.rows()); etools::removeRow(pile, k); M s(stack.rows() - 1, stack.cols()); s << stack.topRows(k), stack.bottomRows(stack.rows() - 1 - k); stack = s; }
                    break;
                }
                case 6:
                {   // pieces may be empty
                    std::vector<M> v; std::vector<M> all; int parts = sim::range(0, 5); M s(0, 0); I rows = 0, cols = stack.cols(); for (int i = 0; i < parts; ++i) { M p = sim::chance(1, 3) ? M(M(0, sim::chance(1, 2) ? 0 : cols)) : random(sim::range(1, 3), cols); v.push_back(p); rows += p.rows(); }
                    s.resize(rows, rows ? cols : 0); I at = 0; for (const M& p : v) { for (I i = 0; i < p.rows(); ++i) s.row(at++) = p.row(i); } M out = random(2, 2); etools::concatenateMatricesVertically(out, v); same("wrong-assembly", "vertical concatenation", out, s);
                    if (rows && rows < 12) stack = pile = out; if (rows) { v.push_back(random(1, cols + 1)); refused("a concatenation of matrices of different widths", [&] { M o; etools::concatenateMatricesVertically(o, v); }); }
                    break;
                }
                case 7:
                {
                    M p[3]; I cols = 0; int parts = sim::range(2, 3); for (int i = 0; i < parts; ++i) { p[i] = sim::chance(1, 3) ? M(0, 0) : random(stack.rows(), sim::range(1, 3)); cols += p[i].cols(); } M s(cols ? stack.rows() : 0, cols); I at = 0; for (int i = 0; i < parts; ++i) for (I j = 0; j < p[i].cols(); ++j) s.col(at++) = p[i].col(j);
                    M out = random(2, 2); if (parts == 2) etools::concatenateMatricesHorizontally(out, p[0], p[1]); else etools::concatenateMatricesHorizontally(out, p[0], p[1], p[2]); same("wrong-assembly", "horizontal concatenation", out, s); if (cols && cols < 12) stack = pile = out;
                    if (cols) refused("a concatenation of matrices of different heights", [&] { M o; etools::concatenateMatricesHorizontally(o, s, random(s.rows() + 1, 2)); });
                    break;
                }
                default:
                {
                    I step = sim::range(1, 4), first = sim::choose(stack.rows()), count = (stack.rows() - first + step - 1) / step; M s(count, stack.cols()); for (I i = 0; i < count; ++i) s.row(i) = stack.row(first + i * step);
                    same("wrong-selection", "rows of a matrix", etools::selectRows(pile, step, first), s); etools::SelectionMatrix selector(step, first); same("wrong-selection", "selection matrix by a matrix", selector * pile, s);
                    if (!first) same("wrong-selection", "rows of a matrix", etools::selectRows(pile, step), s); V v = pile.col(0); same("wrong-selection", "selection matrix by a vector", selector * v, s.col(0));
                    std::vector<M> parts; I rr = 0, cc = 0; int np = sim::range(0, 4); for (int i = 0; i < np; ++i) { parts.push_back(random(sim::range(0, 3), sim::range(1, 3))); rr += parts[i].rows(); cc += parts[i].cols(); } M d = M::Zero(rr, cc); rr = cc = 0; for (const M& p : parts) { d.block(rr, cc, p.rows(), p.cols()) = p; rr += p.rows(); cc += p.cols(); } same("wrong-assembly", "block diagonal matrix", etools::makeBlockDiagonal(parts), d);
                    int copies = sim::range(0, 4); M e = M::Zero(copies * stack.rows(), copies * stack.cols()); for (int i = 0; i < copies; ++i) e.block(i * stack.rows(), i * stack.cols(), stack.rows(), stack.cols()) = stack; same("wrong-assembly", "copies on the diagonal", etools::makeBlockDiagonal(pile, copies), e);
                    M u = pile; etools::unsetMatrix(u); for (I i = 0; i < u.size(); ++i) if (u.data()[i] == u.data()[i]) sim::fail("wrong-assembly", "an unset matrix has a value %.9g", u.data()[i]);
                }
            }
            same("wrong-assembly", "squares", lower(h), lower(want), EPS * 1e5); same("wrong-assembly", "pieces", pile, stack);
        }
    }
    void matrices()
    {
        switch (sim::choose(12)) { case 0: case 1: case 2: assemblies(); break; case 3: blocks<1, 1>(); break; case 4: blocks<2, 3>(); break; case 5: blocks<3, 1>(); break; case 6: blocks<1, 3>(); break; case 7: blocks<2, 2>(); break; case 8: blocks<DYN, DYN>(); break; case 9: blocks<2, DYN>(); break; case 10: blocks<DYN, 2>(); break; default: blocks<1, 2>(); }
    }
    sim::Scenario s("C21", "block matrices follow dense matrices through histories of operations", matrices);
}
