"""The exported C++: build it, drive it and its Python original step by step."""
import os
import shutil
import subprocess
import tempfile
import numpy as np
import vlib

# (the checker of memory accesses does not put up with the way in which casadi loads its plugins)
SHIM = r'''
#include <dlfcn.h>
extern "C" void* dlopen(const char* f, int flag){
    typedef void* (*fun)(const char*, int);
    return ((fun)dlsym(RTLD_NEXT, "dlopen"))(f, flag & ~RTLD_DEEPBIND);
}
'''
MAIN = r'''
#include "Holonomic_omg.hpp"
#include "Point2Point_omg.hpp"
#include <iostream>
#include <iomanip>
#include <memory>
using namespace std;
using namespace omg;
static void out(const char* k, const vector<double>& v){
    cout << k;
    for (double x : v) cout << ' ' << x;
    cout << '\n';
}
static vector<double> rd(int n){ vector<double> v(n); for (auto& x : v) cin >> x; return v; }
class Veh : public Holonomic {
    public:
        using Holonomic::getPrediction;
};
class Probe : public Point2Point {
    public:
        Probe(Vehicle* v, double u, double s, double h, int n) : Point2Point(v, u, s, h, n) {}
        bool seen = false;
        void fillParameterDict(vector<obstacle_t>& o, map<string, map<string, vector<double>>>& d){
            Point2Point::fillParameterDict(o, d);
            out("x0", variables); out("lb", lbg); out("ub", ubg); out("t", {current_time, current_time_prev});
            seen = true;
        }
        void post(){ out("p", parameters); out("x", variables); }
};
// a vehicle whose motion depends on its state, to see the integration
class Spiral : public Vehicle {
    double a, b;
    public:
        using Vehicle::predict; using Vehicle::sampleSplines; using Vehicle::getPrediction; using Vehicle::setKnotHorizon;
        Spiral(double a, double b) : Vehicle(2, 2, 2, 3), a(a), b(b) {}
        void setInitialConditions(vector<double>& c){ vector<double> z(2); setPrediction(c, z); }
        void setTerminalConditions(vector<double>&){}
        void getInitSplineValue(vector<vector<double>>&){}
        void setParameters(map<string, vector<double>>&){}
        void ode(vector<double>& s, vector<double>& u, vector<double>& d){
            d[0] = a*s[0] - b*s[1] + u[0];
            d[1] = b*s[0] + a*s[1] + u[1];
        }
        void splines2State(vector<vector<double>>&, vector<double>, vector<vector<double>>&){}
        void splines2Input(vector<vector<double>>&, vector<double>, vector<vector<double>>&){}
};
int main(){
    cout << setprecision(12);
    string w;
    unique_ptr<Probe> p;
    unique_ptr<Veh> v;
    int L = 0, nobs = 0;
    while (cin >> w){
        if (w == "new"){
            double u, s, h; int mode;
            cin >> u >> s >> h >> L >> mode;
            v.reset(new Veh());
            if (mode == 1) v->setIdealPrediction(true);
            if (mode == 2) v->setProvidePrediction(true);
            p.reset(new Probe(v.get(), u, s, h, L));
            nobs = p->n_obs;
            cout << "new\n";
        } else if (w == "update"){
            int shift, recover, restart;
            cin >> shift >> recover >> restart;
            vector<double> s0 = rd(2), sT = rd(2);
            vector<obstacle_t> obs(nobs);
            for (auto& o : obs){
                int n; cin >> n; o.avoid = n != 0;
                o.position = rd(2); o.velocity = rd(2); o.acceleration = rd(2);
                cin >> n; o.checkpoints = rd(n);
                cin >> n; o.radii = rd(n);
                cin >> n; o.traj_coeffs = rd(n);
            }
            vector<vector<double>> st(L, vector<double>(2)), in(L, vector<double>(2));
            if (restart){ p->reset(); p->resetTime(); }
            if (recover) p->recover();
            bool ok = shift ? p->update(s0, sT, st, in, obs, shift) : p->update(s0, sT, st, in, obs);
            cout << "ok " << ok << '\n';
            p->post();
            vector<double> c;
            p->getCoefficients(c);
            out("c", c);
            vector<double> fs, fi, ps(2), pi(2);
            for (auto& x : st) fs.insert(fs.end(), x.begin(), x.end());
            for (auto& x : in) fi.insert(fi.end(), x.begin(), x.end());
            out("state", fs); out("input", fi);
            v->getPrediction(ps, pi);
            out("ps", ps); out("pi", pi);
            cout << "done\n";
        } else if (w == "integrate"){
            double a, b, ts, T; int n, m, shift;
            cin >> a >> b >> ts >> T >> n >> shift >> m;
            Spiral s(a, b);
            if (m == 1) s.setIdealPrediction(true);
            if (m == 2) s.setProvidePrediction(true);
            vector<double> s0 = rd(2);
            vector<vector<double>> st(n), in(n);
            for (auto& x : st) x = rd(2);
            for (auto& x : in) x = rd(2);
            s.predict(s0, st, in, T, ts, shift);
            vector<double> ps(2), pi(2);
            s.getPrediction(ps, pi);
            out("ps", ps); out("pi", pi);
            cout << "done\n";
        } else if (w == "sample"){
            int d, n; double T; cin >> T >> d >> n;
            Spiral s(0, 0);
            s.setKnotHorizon(T);
            vector<vector<double>> c(2);
            for (auto& x : c) x = rd(13);
            vector<double> t = rd(n);
            vector<vector<double>> r(n, vector<double>(2));
            s.sampleSplines(c, t, d, r);
            vector<double> f;
            for (auto& x : r) f.insert(f.end(), x.begin(), x.end());
            out("r", f);
            cout << "done\n";
        }
    }
}
'''


MAIN_ADMM = r'''
#include <casadi/casadi.hpp>
#include <iostream>
#include <iomanip>
#include <memory>
#include <map>
#define private public
#define protected public
#include "KIND_NS.hpp"
#undef private
#undef protected
#include "Holonomic_NS.hpp"
using namespace std;
using namespace NS;
typedef vector<double> vec;
typedef vector<vec> mat;
static void out(const string& k, const vec& v){
    cout << k;
    for (double x : v) cout << ' ' << x;
    cout << '\n';
}
static vec rd(int n){ vec v(n); for (auto& x : v) cin >> x; return v; }
static vec flat(const mat& m){ vec f; for (auto& x : m) f.insert(f.end(), x.begin(), x.end()); return f; }
class Probe : public KIND {
    public:
        using KIND::KIND;
        vec when = vec(2);
        void fillParameterDict(vector<obstacle_t>& o, map<string, map<string, vec>>& d){
            KIND::fillParameterDict(o, d);
            when = {current_time, current_time_prev};
        }
        vec& par(){ return parameters; }
};
int main(){
    cout << setprecision(12);
    string w;
    vector<unique_ptr<Probe>> p;
    vector<unique_ptr<Holonomic>> v;
    int L = 0, nn = 0, ns = 0, nobs = 0;
    while (cin >> w){
        if (w == "new"){
            double u, s, h, rho; int n, init, how, mode;
            cin >> n >> u >> s >> h >> L >> init >> rho >> how >> mode;
            p.clear(); v.clear();
            for (int k=0; k<n; k++){
                v.emplace_back(new Holonomic());
                if (mode == 1) v.back()->setIdealPrediction(true);
                Vehicle* q = v.back().get();
                p.emplace_back(how == 0 ? new Probe(q, u, s, h, L, init, rho) : how == 1 ? new Probe(q, u, s, h, L, init) : new Probe(q, u, s, h, L));
            }
            nn = N_NGHB; ns = p[0]->n_shared; nobs = N_OBS;
            cout << "new\n";
        } else if (w == "one"){
            int a, shift; cin >> a >> shift;
            vec s0 = rd(2), sT = rd(2), rel = rd(2);
            mat zji(nn), lji(nn), st(L, vec(2)), in(L, vec(2));
            for (auto& x : zji) x = rd(ns);
            for (auto& x : lji) x = rd(ns);
            vec x(ns);
            vector<obstacle_t> obs(nobs);
            for (auto& o : obs){
                o.avoid = false; o.position = rd(2); o.velocity = vec(2); o.acceleration = vec(2);
                o.checkpoints = vec(2); o.radii = vec(1);
            }
            bool ok = shift ? p[a]->update1(s0, sT, st, in, x, zji, lji, obs, rel, shift) : p[a]->update1(s0, sT, st, in, x, zji, lji, obs, rel);
            cout << "ok " << ok << '\n';
            out("p", p[a]->par()); out("x", p[a]->variables); out("t", p[a]->when); out("x_i", x);
            out("state", flat(st)); out("input", flat(in));
            cout << "done\n";
        } else if (w == "two"){
            int a; cin >> a;
            mat xj(nn), zij(nn, vec(ns)), lij(nn, vec(ns));
            for (auto& x : xj) x = rd(ns);
            vec res(3);
            p[a]->update2(xj, zij, lij, res);
            out("z", flat(zij)); out("l", flat(lij)); out("res", res);
            for (auto& x : p[a]->variables_admm) out(x.first, x.second);
            cout << "done\n";
        }
    }
}
'''


def admm_main(kind, ns):
    return MAIN_ADMM.replace('KIND', kind).replace('NS', ns)


def compiler():
    for c in ('g++-9', 'g++'):
        if shutil.which(c):
            return c


def build(d, sources, main, san=True):
    """build an exported folder with our main, with the Makefile that was exported; d ends with a slash;
    sources: what the user adds (the vehicle); all else has to be listed in the Makefile"""
    src = os.path.join(d, 'src')
    with open(os.path.join(src, 'main.cpp'), 'w') as f:
        f.write(main)
    with open(os.path.join(src, 'shim.cpp'), 'w') as f:
        f.write(SHIM)
    import casadi
    lib = os.path.dirname(os.path.abspath(casadi.__file__))
    flags = ['-D_GNU_SOURCE', '-O0', '-g1', '-w']
    if san:
        flags += ['-fsanitize=address', '-fsanitize=return', '-fno-sanitize-recover=all']
    r = subprocess.run(['make', '-s', '-j8', '-C', d, 'all', 'CXX=' + ' '.join([compiler()] + flags), 'CC=gcc -w', 'DEBUG=-rdynamic -ldl',
                        'CASADILIB=' + lib, 'CASADIINC=' + os.path.join(lib, 'include'), 'CASADIOBJ=' + d + 'bin/',
                        'SOURCEFILES=' + ' '.join(['main.cpp', 'shim.cpp'] + sources), 'EXECUTABLE=main'],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env={k: v for k, v in os.environ.items() if not k.startswith('MAKE') and k != 'MFLAGS'})
    if r.returncode:
        return None, r.stdout.decode(errors='replace')[-900:]
    return d+'bin/main', ''


class Exe(object):
    """a running exported program"""
    def __init__(self, exe, cwd):
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:detect_odr_violation=0', OMP_NUM_THREADS='1')
        import casadi
        env['LD_LIBRARY_PATH'] = os.path.dirname(os.path.abspath(casadi.__file__))
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, cwd=cwd, env=env, universal_newlines=True)

    def ask(self, cmd, *args):
        words = [cmd]
        for a in args:
            words += ['%.17g' % x for x in np.ravel(a)]
        try:
            self.p.stdin.write(' '.join(words) + '\n')
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        r = {}
        while True:
            line = self.p.stdout.readline()
            if not line:
                self.p.wait()
                self.err.seek(0)
                txt = self.err.read().decode(errors='replace')
                k = txt.find('ERROR')
                raise RuntimeError('the exported program died (%s): %s' % (self.p.returncode, txt[max(k, 0):max(k, 0)+400]))
            w = line.split()
            if not w:
                continue
            if w[0] in ('done', 'new'):
                return r
            try:
                r.setdefault(w[0], [float(x) for x in w[1:]])
            except ValueError:
                r.setdefault('said', line.strip())

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()
        self.err.close()
        self.p.stdout.close()
