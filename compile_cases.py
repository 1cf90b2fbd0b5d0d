"""Sizes known to the compiler: each statement must compile with every value of GOOD in place of @ and with none of BAD."""
import os, subprocess
from concurrent.futures import ThreadPoolExecutor
N = "Dynamic"
CASES = [
 # name, statements, good, bad
 ("add", "Vector<3> a; Vector<@> b(3); Vector<> c(a+b);", ["3", N], ["2", "4"]),
 ("add_left", "Vector<@> a(3); Vector<3> b; Vector<> c(a+b);", ["3", "Resizable"], ["2", "4"]),
 ("subtract", "Vector<3> a; Vector<@> b(3); Vector<> c(a-b);", ["3", N], ["2", "4"]),
 ("dot", "Vector<3> a; Vector<@> b(3); double c=a*b; (void)c;", ["3", N], ["2", "4"]),
 ("cross", "Vector<3> a; Vector<@> b; Vector<3> c=a^b;", ["3"], ["2", "4"]),
 ("diagmult", "Vector<3> a; Vector<@> b(3); Vector<> c(diagmult(a,b));", ["3", N], ["2", "4"]),
 ("add_assign", "Vector<3> a; Vector<@> b(3); a+=b;", ["3", N], ["2", "4"]),
 ("subtract_assign", "Vector<3> a; Vector<@> b(3); a-=b;", ["3", N], ["2", "4"]),
 ("assign", "Vector<3> a; Vector<@> b(3); a=b;", ["3", N], ["2", "4"]),
 ("assign_expression", "Vector<3> a; Vector<@> b(3); a=b*2;", ["3", N], ["2", "4"]),
 ("construct", "Vector<@> b(3); Vector<3> a(b);", ["3", N], ["2", "4"]),
 ("construct_expression", "Vector<@> b(3); Vector<3> a(b+b);", ["3", N], ["2", "4"]),
 ("equal", "Vector<3> a; Vector<@> b(3); bool c=a==b; (void)c;", ["3", N], ["2", "4"]),
 ("row_product", "Vector<3> a; Vector<@> b(3); Matrix<1> c(a.as_row()*b.as_col());", ["3", N], ["2", "4"]),
 ("slice_assign", "Vector<5> a; Vector<@> b(3); a.slice<1,3>()=b;", ["3", N], ["2", "4"]),
 ("diagonal_times_vector", "DiagonalMatrix<3> d; Vector<@> b(3); Vector<3> c(d*b);", ["3", N], ["2", "4"]),
 ("matrix_add_rows", "Matrix<2,3> a; Matrix<@,3> b(2,3); Matrix<> c(a+b);", ["2", N], ["1", "3"]),
 ("matrix_add_columns", "Matrix<2,3> a; Matrix<2,@> b(2,3); Matrix<> c(a+b);", ["3", N], ["2", "4"]),
 ("matrix_subtract", "Matrix<2,3> a; Matrix<2,@> b(2,3); Matrix<> c(a-b);", ["3", N], ["2", "4"]),
 ("matrix_subtract_rows", "Matrix<2,3> a; Matrix<@,3> b(2,3); Matrix<> c(a-b);", ["2", N], ["1", "3"]),
 ("matrix_add_assign", "Matrix<2,3> a; Matrix<2,@> b(2,3); a+=b;", ["3", N], ["2", "4"]),
 ("matrix_add_assign_rows", "Matrix<2,3> a; Matrix<@,3> b(2,3); a+=b;", ["2", N], ["1", "3"]),
 ("matrix_subtract_assign", "Matrix<2,3> a; Matrix<2,@> b(2,3); a-=b;", ["3", N], ["2", "4"]),
 ("matrix_subtract_assign_rows", "Matrix<2,3> a; Matrix<@,3> b(2,3); a-=b;", ["2", N], ["1", "3"]),
 ("matrix_assign", "Matrix<2,3> a; Matrix<@,3> b(2,3); a=b;", ["2", N], ["1", "3"]),
 ("matrix_assign_columns", "Matrix<2,3> a; Matrix<2,@> b(2,3); a=b;", ["3", N], ["2", "4"]),
 ("matrix_construct", "Matrix<2,@> b(2,3); Matrix<2,3> a(b);", ["3", N], ["2", "4"]),
 ("matrix_construct_rows", "Matrix<@,3> b(2,3); Matrix<2,3> a(b);", ["2", N], ["1", "3"]),
 ("matrix_equal", "Matrix<2,3> a; Matrix<2,@> b(2,3); bool c=a==b; (void)c;", ["3", N], ["2", "4"]),
 ("product", "Matrix<2,3> a; Matrix<@,2> b(3,2); Matrix<2> c(a*b);", ["3", N], ["2", "4"]),
 ("product_left", "Matrix<2,@> a(2,3); Matrix<3,2> b; Matrix<2> c(a*b);", ["3", N], ["2", "4"]),
 ("product_result", "Matrix<2,3> a; Matrix<3,2> b; Matrix<2,@> c(a*b);", ["2", ], ["1", "3"]),
 ("transposed_product", "Matrix<2,3> a; Matrix<@,4> b(2,4); Matrix<3,4> c(a.T()*b);", ["2", N], ["3", "4"]),
 ("matrix_times_vector", "Matrix<2,3> a; Vector<@> b(3); Vector<2> c(a*b);", ["3", N], ["2", "4"]),
 ("matrix_times_vector_result", "Matrix<2,3> a; Vector<3> b; Vector<@> c(a*b);", ["2"], ["1", "3"]),
 ("vector_times_matrix", "Matrix<2,3> a; Vector<@> b(2); Vector<3> c(b*a);", ["2", N], ["1", "3"]),
 ("diagmult_columns", "Matrix<2,3> a; Vector<@> b(3); Matrix<2,3> c(diagmult(a,b));", ["3", N], ["2", "4"]),
 ("diagmult_rows", "Matrix<2,3> a; Vector<@> b(2); Matrix<2,3> c(diagmult(b,a));", ["2", N], ["1", "3"]),
 ("diagonal_times_matrix", "Matrix<2,3> a; DiagonalMatrix<@> d(Vector<@>(2)); Matrix<2,3> c(d*a);", ["2", N], ["1", "3"]),
 ("matrix_times_diagonal", "Matrix<2,3> a; DiagonalMatrix<@> d(Vector<@>(3)); Matrix<2,3> c(a*d);", ["3", N], ["2", "4"]),
 ("row_assign", "Matrix<2,3> a; Vector<@> b(3); a[0]=b;", ["3", N], ["2", "4"]),
 ("column_assign", "Matrix<2,3> a; Vector<@> b(2); a.T()[0]=b;", ["2", N], ["1", "3"]),
 ("diagonal_assign", "Matrix<2,3> a; Vector<@> b(2); a.diagonal_slice()=b;", ["2", N], ["1", "3"]),
 ("identity", "Matrix<2,@> a; a=Identity;", ["2"], ["1", "3"]),
 ("identity_construct", "Matrix<@,2> a=Identity; (void)a;", ["2"], ["1", "3"]),
 ("identity_add", "Matrix<2,@> a; Matrix<> b(a+Identity);", ["2"], ["1", "3"]),
 ("identity_subtract", "Matrix<2,@> a; Matrix<> b(a-Identity);", ["2"], ["1", "3"]),
 ("identity_add_assign", "Matrix<2,@> a; a+=Identity;", ["2"], ["1", "3"]),
 ("trace", "Matrix<2,@> a; double t=trace(a); (void)t;", ["2"], ["1", "3"]),
 ("determinant", "Matrix<2,@> a; double t=determinant(a); (void)t;", ["2"], ["1", "3"]),
 ("exp", "Matrix<2,@> a; Matrix<> t(exp(a));", ["2"], ["1", "3"]),
 ("symmetrize", "Matrix<2,@> a; Symmetrize(a);", ["2"], ["1", "3"]),
 ("cross_product_matrix", "Vector<@> a(3); Matrix<3> b(cross_product_matrix(a));", ["3", N], ["2", "4"]),
 # slices
 ("slice_length", "Vector<5> v; v.slice<1,@>();", ["0", "1", "4"], ["5", "6", "2147483647", "-3"]),
 ("slice_start", "Vector<5> v; v.slice<@,2>();", ["0", "3"], ["4", "5", "-3", "2147483647"]),
 ("read_only_slice", "const Vector<5> v; v.slice<@,2>();", ["0", "3"], ["4", "5", "-3"]),
 ("slice_fixed_length", "Vector<5> v; v.slice<Dynamic,@>(0,@);", ["0", "5"], ["6", "-3"]),
 ("slice_fixed_start", "Vector<5> v; v.slice<@,Dynamic>(@,0);", ["0", "5"], ["6", "-3"]),
 ("slice_of_row", "Matrix<2,3> m; m[0].slice<@,2>();", ["0", "1"], ["2", "3", "-3"]),
 ("slice_of_slice", "Vector<6> v; v.slice<1,4>().slice<@,2>();", ["0", "2"], ["3", "4", "-3"]),
 ("matrix_slice_row", "Matrix<4,5> m; m.slice<@,1,2,2>();", ["0", "2"], ["3", "4", "-3"]),
 ("matrix_slice_column", "Matrix<4,5> m; m.slice<1,@,2,2>();", ["0", "3"], ["4", "5", "-3"]),
 ("matrix_slice_rows", "Matrix<4,5> m; m.slice<1,1,@,2>();", ["0", "3"], ["4", "5", "-3"]),
 ("matrix_slice_columns", "Matrix<4,5> m; m.slice<1,1,2,@>();", ["0", "4"], ["5", "6", "-3"]),
 ("read_only_matrix_slice", "const Matrix<4,5> m; m.slice<1,1,2,@>();", ["0", "4"], ["5", "6", "-3"]),
 ("transposed_matrix_slice", "Matrix<4,5> m; m.T().slice<0,0,@,2>();", ["0", "5"], ["6", "-3"]),
 # fills and lists
 ("fill", "Vector<3> v; Fill(v)=1,2,3@;", [""], [",4", ",4,5"]),
 ("fill_slice", "Vector<5> w; auto v=w.slice<1,2>(); Fill(v)=1,2@;", [""], [",3"]),
 ("fill_matrix", "Matrix<2> m; Fill(m)=1,2,3,4@;", [""], [",5"]),
 ("list", "Vector<3> v({1,2@}); (void)v;", [",3"], ["", ",3,4"]),
 ("data_vector", "Vector<3> v; v=Data(1,2@);", [",3"], ["", ",3,4"]),
 ("data_vector_construct", "Vector<3> v=Data(1,2@);", [",3"], ["", ",3,4"]),
 ("make_vector", "Vector<3> v=makeVector(1,2@); (void)v;", [",3"], ["", ",3,4"]),
 ("data_matrix", "Matrix<2> m=Data(1,2,3@);", [",4"], ["", ",4,5"]),
 # decompositions and estimators
 ("cholesky", "Matrix<2,@> a=Data(3,1,1,3@@); Cholesky<2> c(a);", None, None),
 ("lu", "Matrix<2,@> a; a=Zeros; LU<2> c(a);", ["2"], ["1", "3"]),
 ("symeigen", "Matrix<2,@> a; a=Zeros; SymEigen<2> c(a);", ["2"], ["1", "3"]),
 ("cholesky_shape", "Matrix<2,@> a; a=Zeros; Cholesky<2> c(a);", ["2"], ["1", "3"]),
 ("cholesky_backsub", "Matrix<2> a=Identity; Cholesky<2> c(a); Vector<@> b(2); Vector<2> x(c.backsub(b));", ["2", N], ["1", "3"]),
 ("lu_backsub", "Matrix<2> a=Identity; LU<2> c(a); Vector<@> b(2); Vector<2> x(c.backsub(b));", ["2", N], ["1", "3"]),
 ("lu_backsub_matrix", "Matrix<2> a=Identity; LU<2> c(a); Matrix<@,3> b(2,3); Matrix<2,3> x(c.backsub(b));", ["2", N], ["1", "3"]),
 ("svd_backsub", "Matrix<4,2> a; a=Zeros; SVD<4,2> c(a); Vector<@> b(4); Vector<2> x(c.backsub(b));", ["4", N], ["2", "3"]),
 ("symeigen_backsub", "Matrix<2> a=Identity; SymEigen<2> c(a); Vector<@> b(2); Vector<2> x(c.backsub(b));", ["2", N], ["1", "3"]),
 ("gaussian_elimination", "Matrix<2> a=Identity; Vector<@> b; Vector<2> x(gaussian_elimination(a,b));", ["2"], ["1", "3"]),
 ("wls_add_mJ", "WLS<3> w; Vector<@> J; w.add_mJ(1,J);", ["3"], ["2", "4"]),
 ("wls_add_mJ_covariance", "WLS<3> w; Vector<2> m; Matrix<3,@> J; Matrix<2> c; w.add_mJ(m,J,c);", ["2"], ["1", "3"]),
 ("irls_add_mJ", "IRLS<3,double,RobustI> w; Vector<@> J; w.add_mJ(1.,J);", ["3"], ["2", "4"]),
 # transformations
 ("so2_times", "SO2<> s; Vector<@> v(2); Vector<2> x(s*v);", ["2", N], ["1", "3"]),
 ("so3_times", "SO3<> s; Vector<@> v(3); Vector<3> x(s*v);", ["3", N], ["2", "4"]),
 ("so3_times_matrix", "SO3<> s; Matrix<@,2> v(3,2); Matrix<3,2> x(s*v);", ["3", N], ["2", "4"]),
 ("so3_exp", "Vector<@> v(3); SO3<> s=SO3<>::exp(v);", ["3", N], ["2", "4"]),
 ("se2_times", "SE2<> s; Vector<@> v(3); Vector<> x(s*v);", ["2", "3", N], ["1", "4"]),
 ("se3_times", "SE3<> s; Vector<@> v(4); Vector<> x(s*v);", ["3", "4", N], ["2", "5"]),
 ("se3_times_matrix", "SE3<> s; Matrix<@,2> v(4,2); Matrix<> x(s*v);", ["4", N], ["3", "5"]),
 ("se3_exp", "Vector<@> v(6); SE3<> s=SE3<>::exp(v);", ["6", N], ["5", "7"]),
 ("se3_adjoint", "SE3<> s; Vector<@> v(6); Vector<6> x(s.adjoint(v));", ["6", N], ["5", "7"]),
 ("se3_trinvadjoint", "SE3<> s; Vector<@> v(6); Vector<6> x(s.trinvadjoint(v));", ["6", N], ["5", "7"]),
 ("se2_exp", "Vector<@> v(3); SE2<> s=SE2<>::exp(v);", ["3", N], ["2", "4"]),
 ("sim2_exp", "Vector<@> v(4); SIM2<> s=SIM2<>::exp(v);", ["4", N], ["3", "5"]),
 ("sim3_exp", "Vector<@> v(7); SIM3<> s=SIM3<>::exp(v);", ["7", N], ["6", "8"]),
 ("sim3_times", "SIM3<> s; Vector<@> v(4); Vector<> x(s*v);", ["3", "4", N], ["2", "5"]),
 ("sl_construct", "Vector<@> v(8); v=Zeros; SL<3> s(v);", ["8", N], ["7", "9"]),
]
CASES = [c for c in CASES if c[2] is not None]
HEAD = "".join("#include <TooN/%s.h>\n" % h for h in "TooN Cholesky LU SVD SymEigen determinant gaussian_elimination wls irls so2 so3 se2 se3 sim2 sim3 sl".split()) + "using namespace TooN;\n"

def run(r):
    fl = [x for x in r.flags("san") if not x.startswith(("-fsanitize", "-fno-san", "-O", "-g"))] + ["-fsyntax-only", "-w", "-Wno-error"]
    def compiles(body, tag):
        f = os.path.join(r.dir, "cc_%s.cc" % tag)
        with open(f, "w") as o: o.write(HEAD + body)
        p = subprocess.run(fl + [f], capture_output=True, text=True, timeout=600); os.unlink(f)
        return p.returncode == 0, p.stdout + p.stderr, p.returncode
    fn = lambda name, code: "void %s(){ %s }\n" % (name, code)
    good = [(n, code, v) for n, code, gs, bs in CASES for v in gs]
    bad = [(n, code, v) for n, code, gs, bs in CASES for v in bs]
    if r.tier == "quick": chunks = [good[i::6] for i in range(6)]
    else: chunks = [[g] for g in good]
    def one_good(c):
        ok, log, _ = compiles("".join(fn("f%d" % i, g[1].replace("@", g[2])) for i, g in enumerate(c)), "g%d" % id(c))
        if ok: return [(g, True, "") for g in c]
        out = []
        for i, g in enumerate(c):
            ok, log, _ = compiles(fn("f", g[1].replace("@", g[2])), "g%d_%d" % (id(c), i)); out.append((g, ok, log))
        return out
    def one_bad(i):
        n, code, v = bad[i]
        ok, log, rc = compiles(fn("f", code.replace("@", v)), "b%d" % i)
        return bad[i], ok, log
    with ThreadPoolExecutor(8) as ex:
        gs = [ex.submit(one_good, c) for c in chunks]; bs = [ex.submit(one_bad, i) for i in range(len(bad))]
        n = 0
        for f in gs:
            for g, ok, log in f.result():
                k = "compiles/" + g[0]; r.rules.setdefault(k, [0, 0.0])[0] += 1; n += 1
                if not ok:
                    e = next((l for l in log.splitlines() if " error: " in l), log[:300])
                    r.violation(k, "", 0, "a statement whose sizes agree was rejected by the compiler: %s : %s" % (g[1].replace("@", g[2]), e[-300:]), "", "san", "compile_cases.py")
        for f in bs:
            b, ok, log = f.result()
            k = "does_not_compile/" + b[0]; r.rules.setdefault(k, [0, 0.0])[0] += 1; n += 1
            if ok: r.violation(k, "", 0, "a statement whose sizes disagree was accepted by the compiler: %s" % b[1].replace("@", b[2]), "", "san", "compile_cases.py")
    r.notes["statements_given_to_the_compiler"] = n
